/* C26: which reader opens a file: by extension, by type or MIME type in any case, or by name; the list of names
 * agrees with the readers in every build configuration. */
#include "rd.h"
#include "image.h"
/* external readers are replaced by stand-ins that record having been chosen */
static const char* chosen;
#define STANDIN(id,name,cond) \
	static void* id##_open(const char* f, size_t* w, size_t* h, RDError* e) { chosen = name; *w = *h = 1; return malloc(1); } \
	static bool id##_read(void* c, float* i, size_t w, size_t h, RDError* e) { return false; } \
	static bool id##_seek(void* c, uint64_t o, void(*p)(void*,uint64_t), void* pc, size_t w, size_t h, RDError* e) { return false; } \
	static void id##_close(void* c) { free(c); } \
	static bool id##_ext(const char* x) { return cond; } \
	struct image_reader resdet_image_reader_##id = { .open = id##_open, .read_frame = id##_read, .seek_frame = id##_seek, .close = id##_close, .supports_ext = id##_ext };
STANDIN(libjpeg,"libjpeg",resdet_strieq(x,"jpg") || resdet_strieq(x,"jpeg"))
STANDIN(libpng,"libpng",resdet_strieq(x,"png"))
STANDIN(ffmpeg,"FFmpeg",resdet_strieq(x,"mkv"))
STANDIN(magickwand,"MagickWand",true)
static const char* const all[] = {
#ifndef OMIT_PGM_READER
	"PGM",
#endif
#ifndef OMIT_PFM_READER
	"PFM",
#endif
#ifndef OMIT_Y4M_READER
	"Y4M",
#endif
#ifdef HAVE_LIBJPEG
	"libjpeg",
#endif
#ifdef HAVE_LIBPNG
	"libpng",
#endif
#ifdef HAVE_FFMPEG
	"FFmpeg",
#endif
#ifdef HAVE_MAGICKWAND
	"MagickWand",
#endif
	NULL };
static bool have(const char* n) { for(int i = 0; all[i]; i++) if(!strcmp(all[i],n)) return true; return false; }
static char buf1[64];
/* every mixture of case, as one symbolic choice per letter */
static char* anycase(const char* s) {
	size_t i; for(i = 0; s[i]; i++) { unsigned char c = s[i]; if((c|32) >= 'a' && (c|32) <= 'z') c ^= (nd_u8() & 1) << 5; buf1[i] = c; }
	buf1[i] = 0; return buf1;
}
static const char* opened(RDImage* im) {
	if(chosen) return chosen;
	/* a native reader: told apart by the file it accepts */
	return im ? "native" : NULL;
}
static const struct { const char* reader,* text; } native[] = { { "PGM","P5 1 1 255\na" },{ "PFM","Pf 1 1 -1\nabcd" },{ "Y4M","YUV4MPEG2 W1 H1\nFRAME\nabc" } };
static void expect(const char* reader, const char* what, const char* filename, const char* type, bool byname) {
	/* offer a file of the expected native format, and no other format opens */
	fn = 0; const char* text = "junk";
	for(int i = 0; i < 3; i++) if(reader && !strcmp(native[i].reader,reader)) text = native[i].text;
	ps(text);
	vf_file(filename,fb,fn,true);
	chosen = NULL; vf_open_count = vf_close_count = 0;
	size_t w, h; RDError e = 99;
	RDImage* im = byname ? resdet_open_image_with_reader(filename,type,&w,&h,NULL,&e) : resdet_open_image(filename,type,&w,&h,NULL,&e);
	if(!reader || !have(reader)) VASSERT(im == NULL && e == RDEUNSUPP && !chosen,"nothing opens what no reader handles");
	else if(text[0] != 'j') VASSERT(im != NULL && e == RDEOK && !chosen,"the native reader of that format opens it");
	else VASSERT(im != NULL && e == RDEOK && chosen && !strcmp(chosen,reader),"the reader of that format opens it");
	resdet_close_image(im);
	VASSERT(vm_live == 0,"nothing left");
}
int main(void) {
	const char* const* l = resdet_list_image_readers();
	int n = 0;
	for(; all[n]; n++) VASSERT(l[n] && !strcmp(l[n],all[n]),"the list names the readers built in");
	VASSERT(l[n] == NULL,"and no others");
	const char* last = have("MagickWand") ? "MagickWand" : NULL;     /* tries anything */
	static const struct { const char* ext,* mime,* reader; } t[] = {
		{ "pgm","image/x-portable-graymap","PGM" },{ "pfm","image/x-portable-floatmap","PFM" },{ "y4m","video/yuv4mpeg","Y4M" },
		{ "jpg","image/jpeg","libjpeg" },{ "jpeg",NULL,"libjpeg" },{ "png","image/png","libpng" },{ "mkv",NULL,"FFmpeg" },{ "gif","image/gif",NULL },{ "pg",NULL,NULL },{ "pgmx",NULL,NULL },{ "",NULL,NULL },
		{ "y4mx","video/yuv4mpegx",NULL },{ "pfmpfm","image/x-portable-floatmaps",NULL },{ "jpegs","image/jpegxl",NULL },{ "pngx","image/pn",NULL },
	};
	unsigned k = nd_choice(0,14), how = nd_choice(0,6);
	const char* r = t[k].reader && have(t[k].reader) ? t[k].reader : last;
	static char name[1200];
	if(how == 0) { strcpy(name,"d.png/x.y."); strcat(name,anycase(t[k].ext)); expect(r,"extension",name,NULL,false); }
	if(how == 1) expect(r,"type","some.pgm.y4m",anycase(t[k].ext),false);
	if(how == 2 && t[k].mime) expect(r,"MIME type","-",t[k].mime,false);
	if(how == 3) expect(last,"no extension","noextension",NULL,false);
	if(how == 5) {      /* a long name with dots in it */
		for(int i = 0; i < 1000; i++) name[i] = i%200 == 199 ? '/' : i%50 == 40 ? '.' : "pgmjpeg"[i%7];
		strcpy(name+1000,"."); strcat(name,t[k].ext); expect(r,"extension",name,NULL,false);
	}
	if(how == 6) {      /* a long extension or type that begins or ends like a known one */
		bool type = nd_choice(0,1), head = nd_choice(0,1); char* x = name+2;
		name[0] = 'x'; name[1] = '.';
		for(int i = 0; i < 300; i++) x[i] = "qzv"[i%3];
		size_t n = strlen(t[k].ext);
		if(head) memcpy(x,t[k].ext,n); else memcpy(x+300-n,t[k].ext,n);
		x[300] = 0;
		expect(last,"long extension",type ? "some.pgm" : name,type ? x : NULL,false);
	}
	if(how == 4) {
		static const char* const names[] = { "PGM","PFM","Y4M","libjpeg","libpng","FFmpeg","MagickWand","lib","PGMx","","png","PFMPFM","libjpegx","libpngs","FFmpeg ","Y4","MagickWands" };
		unsigned q = nd_choice(0,16);
		expect(q < 7 ? names[q] : NULL,"name","-",anycase(names[q]),true);
	}
	VWITNESS("selected");
	return 0;
}
