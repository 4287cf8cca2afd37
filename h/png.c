/* C27: PNG files through libpng: a model of its decoder (formats, transformations, interlacing, errors by longjmp). */
#ifndef LARGE
#define LARGE 0
#endif
#define SPARSE 20011
#include "ext.h"
#include <setjmp.h>
#include <png.h>
#ifdef INTERLACED
#define PASSES 7
#else
#define PASSES 1
#endif
struct png_struct_def { int live; bool info_read, updated, ended; bool strip_alpha, pal_rgb, to8, expand_gray, trns_alpha, packing, gray_rgb, interlace; int rows, pass; jmp_buf jmp; png_error_ptr err; FILE* f; int sig; };
struct png_info_def { int live; };
static struct png_struct_def P; static struct png_info_def I;
static int color, depth; static bool trns;
static uint8_t hi[4][W*H], lo[4][W*H], pal[2][3]; static uint8_t idx[W*H];

static void die(png_const_structrp p) {
	if(P.err) { P.err((png_structp)p,"bad data"); VASSERT(0,"an error handler does not return"); }
	longjmp(P.jmp,1);
}
static void step(png_const_structrp p) { VASSERT(p == &P && P.live,"a live reader"); if(ext_fails()) die(p); }
int png_sig_cmp(png_const_bytep s, size_t start, size_t n) {
	static const unsigned char g[] = { 137,80,78,71,13,10,26,10 };
	if(n > 8) n = 8; if(start > 7 || n < 1) return -1; if(start+n > 8) n = 8-start;
	return memcmp(s+start,g+start,n);
}
png_structp png_create_read_struct(png_const_charp v, png_voidp ep, png_error_ptr e, png_error_ptr w) {
	VASSERT(!P.live,"one reader");
	if(ext_fails()) return NULL;
	P.live = 1; P.err = e; ext_live++;
	return &P;
}
png_infop png_create_info_struct(png_const_structrp p) { VASSERT(p == &P && P.live && !I.live,"one info structure"); if(ext_fails()) return NULL; I.live = 1; ext_live++; return &I; }
void png_destroy_read_struct(png_structpp p, png_infopp i, png_infopp e) {
	if(!p || !*p) return;
	VASSERT(*p == &P && P.live,"released once");
	if(i && *i) { VASSERT(*i == &I && I.live,"released once"); I.live = 0; ext_live--; *i = NULL; }
	P.live = 0; ext_live--; *p = NULL;
}
jmp_buf* png_set_longjmp_fn(png_structrp p, png_longjmp_ptr f, size_t size) { VASSERT(p == &P && P.live,"a live reader"); return &P.jmp; }
void png_longjmp(png_const_structrp p, int v) { longjmp(P.jmp,v); }
void png_error(png_const_structrp p, png_const_charp m) { die(p); }
void png_init_io(png_structrp p, png_FILE_p f) { P.f = f; }
void png_set_sig_bytes(png_structrp p, int n) { P.sig = n; }
void png_read_info(png_structrp p, png_inforp i) {
	VASSERT(i == &I && I.live && P.f && vf_tell() == (size_t)P.sig,"reading starts after the signature");
	step(p); P.info_read = true;
}
static int channels(void) {
	bool a = color & 4 || (trns && P.trns_alpha);
	int c = color == 3 ? P.pal_rgb || P.trns_alpha ? 3 : 1 : color & 2 ? 3 : P.gray_rgb ? 3 : 1;
	return c+(a && !P.strip_alpha);
}
static int outdepth(void) {
	if(depth == 16) return P.to8 ? 8 : 16;
	if(depth == 8) return 8;
	return color == 3 ? P.pal_rgb || P.trns_alpha || P.packing ? 8 : depth : P.expand_gray || P.packing ? 8 : depth;
}
png_uint_32 png_get_image_width(png_const_structrp p, png_const_inforp i) { return P.info_read ? W : 0; }
png_uint_32 png_get_image_height(png_const_structrp p, png_const_inforp i) { return P.info_read ? H : 0; }
png_byte png_get_bit_depth(png_const_structrp p, png_const_inforp i) { return P.updated ? outdepth() : depth; }
png_byte png_get_color_type(png_const_structrp p, png_const_inforp i) {
	if(!P.updated) return color;
	int c = channels(); return c == 1 ? color == 3 ? 3 : 0 : c == 2 ? 4 : c == 3 ? 2 : 6;
}
png_byte png_get_channels(png_const_structrp p, png_const_inforp i) { return P.updated ? channels() : color == 3 ? 1 : (color & 2 ? 3 : 1)+!!(color & 4); }
size_t png_get_rowbytes(png_const_structrp p, png_const_inforp i) { return (W*png_get_channels(p,i)*png_get_bit_depth(p,i)+7)/8; }
png_byte png_get_interlace_type(png_const_structrp p, png_const_inforp i) { return PASSES == 7; }
png_uint_32 png_get_IHDR(png_const_structrp p, png_const_inforp i, png_uint_32* w, png_uint_32* h, int* d, int* c, int* il, int* cm, int* fm) {
	if(w) *w = W; if(h) *h = H; if(d) *d = png_get_bit_depth(p,i); if(c) *c = png_get_color_type(p,i); if(il) *il = PASSES == 7; if(cm) *cm = 0; if(fm) *fm = 0; return 1;
}
png_uint_32 png_get_valid(png_const_structrp p, png_const_inforp i, png_uint_32 flag) { return (trns && flag & PNG_INFO_tRNS ? PNG_INFO_tRNS : 0) | (color == 3 ? flag & PNG_INFO_PLTE : 0); }
static void transform(png_structrp p) { VASSERT(p == &P && P.live && !P.updated,"transformations are asked for before the first row"); }
void png_set_tRNS_to_alpha(png_structrp p) { transform(p); P.trns_alpha = P.pal_rgb = P.expand_gray = true; }
void png_set_strip_alpha(png_structrp p) { transform(p); P.strip_alpha = true; }
void png_set_palette_to_rgb(png_structrp p) { transform(p); P.pal_rgb = P.expand_gray = P.trns_alpha = true; }
void png_set_expand(png_structrp p) { png_set_palette_to_rgb(p); }
void png_set_strip_16(png_structrp p) { transform(p); P.to8 = true; }
void png_set_scale_16(png_structrp p) { transform(p); P.to8 = true; }
void png_set_expand_gray_1_2_4_to_8(png_structrp p) { transform(p); P.expand_gray = P.pal_rgb = true; }
void png_set_packing(png_structrp p) { transform(p); P.packing = true; }
void png_set_gray_to_rgb(png_structrp p) { transform(p); P.gray_rgb = true; }
int png_set_interlace_handling(png_structrp p) { transform(p); P.interlace = true; return PASSES; }
void png_read_update_info(png_structrp p, png_inforp i) { VASSERT(P.info_read && !P.updated,"once, after the header"); step(p); P.updated = true; }
void png_start_read_image(png_structrp p) { step(p); P.updated = true; }
/* the pass of an interlaced image a pixel belongs to */
static int pass_of(int x, int y) { return y & 1 ? 6 : x & 1 ? 5 : y & 2 ? 4 : x & 2 ? 3 : y & 4 ? 2 : x & 4 ? 1 : 0; }
void png_read_row(png_structrp p, png_bytep row, png_bytep disp) {
	VASSERT(P.info_read && !P.ended,"rows are read after the header and before the end");
	P.updated = true;
	VASSERT(PASSES == 1 || P.interlace,"interlaced rows");
	VASSERT(P.pass < PASSES,"no more rows than the image has");
	step(p);
	int y = P.rows, c = channels(), d = outdepth(), alpha = c == 2 || c == 4;
	if(row) for(int x = 0; x < W; x++) if(PASSES == 1 || pass_of(x,y) == P.pass) for(int k = 0; k < c; k++) {
		bool isalpha = alpha && k == c-1; int i = y*W+x, src = isalpha ? 3 : color & 2 && color != 3 ? k : 0;
		uint8_t v = hi[src][i];
		if(color == 3 && !isalpha) v = c >= 3 ? pal[idx[i]][k] : idx[i];
		else if(depth < 8 && !isalpha && P.expand_gray) v = v*(255/((1<<depth)-1));
		if(d < 8) { if((x*d)%8 == 0) row[x*d/8] = 0; row[x*d/8] |= (v & ((1<<d)-1)) << (8-d-(x*d)%8); }
		else if(d == 8) row[x*c+k] = v;
		else { row[(x*c+k)*2] = v; row[(x*c+k)*2+1] = lo[src][i]; }
	}
	if(++P.rows == H) { P.rows = 0; P.pass++; }
}
void png_read_rows(png_structrp p, png_bytepp row, png_bytepp disp, png_uint_32 n) { for(png_uint_32 i = 0; i < n; i++) png_read_row(p,row ? row[i] : NULL,disp ? disp[i] : NULL); }
void png_read_image(png_structrp p, png_bytepp image) {
	if(!P.interlace) P.interlace = true;
	for(int k = 0; k < PASSES; k++) png_read_rows(p,image,NULL,H);
}
void png_read_end(png_structrp p, png_inforp i) { VASSERT(P.pass == PASSES,"the end comes after every row"); P.ended = true; if(ext_fails()) { ext_soft++; die(p); } }

static int ext_pixel(size_t frame, size_t i, float v) {
	if(color == 3) { uint8_t* q = pal[idx[i]]; return near(v,((unsigned)q[0]+q[1]+q[2])/765.,1e-6); }
	unsigned max = depth < 8 ? (1u<<depth)-1 : 255; double tol = depth == 16 ? 1/255. : 1e-6;
	if(color & 2) return near(v,((unsigned)hi[0][i]+hi[1][i]+hi[2][i])/765.,tol);
	return near(v,hi[0][i]/(double)max,tol);
}
int main(void) {
	static const struct { uint8_t c,d; } kinds[] = { {0,1},{0,2},{0,4},{0,8},{0,16},{2,8},{2,16},{3,1},{3,4},{3,8},{4,8},{4,16},{6,8},{6,16} };
	unsigned k = nd_choice(0,LARGE ? 1 : PASSES == 7 ? 3 : 13); if(LARGE) k = k ? 6 : 3; else if(PASSES == 7) { static const uint8_t some[] = { 2,3,5,12 }; k = some[k]; } color = kinds[k].c; depth = kinds[k].d;
	trns = !(color & 4) && !LARGE && nd_choice(0,1);
	bool missing = FAIL && nd_choice(0,1), in = !LARGE && nd_choice(0,1);
	unsigned cut = FAIL ? nd_choice(0,3) : 0;   /* a short or damaged signature */
	static const unsigned char sig[] = { 137,80,78,71,13,10,26,10 };
	for(int i = 0; i < 8; i++) pc(sig[i]);
	if(cut == 1) fn = 7; else if(cut == 2) fn = 0; else if(cut == 3) { unsigned at = nd_choice(0,7); uint8_t v = nd_u8(); VASSUME(v != sig[at]); fb[at] = v; }
	pc(0); if(cut == 1 || cut == 2) fn--;
	int freech = color & 2 ? nd_choice(0,2) : 0;
	for(int i = 0; i < W*H; i++) {
		if(color == 3) idx[i] = i & 1;
		for(int c = 0; c < 4; c++) { hi[c][i] = c == 3 ? 77 : color & 2 ? c == freech && (i == W*H-1 || i == 0) ? nd_u8() : (13*i+50*c) & 255 : (PASSES == 7 ? i%6 == 0 : !LARGE && (W < 50 || i%37 == 5) || i%SPARSE == 5) ? nd_u8() : 9*i+7; lo[c][i] = 128; if(depth < 8) hi[c][i] &= (1<<depth)-1; }
	}
	for(int i = 0; i < 2; i++) for(int c = 0; c < 3; c++) pal[i][c] = c == freech ? nd_u8() : 40*i+90*c;
	ext_total = 1;
	vf_file(missing ? "other" : in ? "-" : "in.png",fb,fn,true);
	vm_fail = FAIL; vm_fail_budget = FAIL && !cut && !missing;
	float* buf; RDError e;
	RDImage* im = ext_open(in && !missing ? "-" : "in.png","libpng",&buf,&e);
	if(cut || missing) { VASSERT(!im && (missing ? e == -ENOENT : e == RDEINVAL),"a file that is missing or not a PNG is refused"); VWITNESS("not a png"); }
	else if(vm_failures) { VASSERT(!im,"a file whose header cannot be read is refused"); ext_error(e); VWITNESS("header fails"); }
	else { VASSERT(im,"a valid file opens"); ext_run(im,buf); }
	ext_done(im,buf);
	return 0;
}
