/* C23: seeking by n frames is reading n frames and discarding them, with progress reported once per frame passed. */
#include "rd.h"
enum { PGM, PFM, Y4M };
#ifndef BYTES
#define BYTES 1
#define TAGS ""
#define CHROMA 0
#endif
#ifndef W
#define W 2
#define H 1
#endif
static int tag; static uint64_t seen, wrong;
static void progress(void* ctx, uint64_t n) { if(ctx != &tag || n != ++seen) wrong++; }
static size_t frames;
static void frame(void) {
	if(FMT == PGM) { ps("P5 "); pn(W); pc(' '); pn(H); ps(" 255\n"); for(int i = 0; i < W*H; i++) pc(nd_u8()); }
	else if(FMT == PFM) {
		bool color = nd_choice(0,1);
		ps(color ? "PF\n" : "Pf\n"); pn(W); pc(' '); pn(H); ps("\n-1.0\n");
		for(int i = 0; i < W*H*(color ? 3 : 1); i++) { float f = color ? (int8_t)nd_u8() : nd_u8(); pbytes(&f,4); }
	}
	else {
		ps("FRAME"); if(frames & 1) ps(" Ip"); pc('\n');
		for(int i = 0; i < W*H*BYTES; i++) pc(nd_u8());
		for(int i = 0; i < CHROMA; i++) pc("FRAME\n"[i%6]);
	}
}
int main(void) {
	if(FMT == Y4M) { ps("YUV4MPEG2 W"); pn(W); ps(" H"); pn(H); ps(TAGS); pc('\n'); }
	size_t total = FMT == PGM ? 1 : nd_choice(FMT == PFM,FR);
	for(frames = 0; frames < total; frames++) frame();
	struct how how = { 1,nd_choice(0,1) };
	static const char* const ext[] = { "pgm","pfm","y4m" };
	/* read every frame in order */
	static float ref[FR+1][W*H]; size_t w, h; RDError e; float* buf;
	RDImage* im = rd_open(how,ext[FMT],ext[FMT],&w,&h,&buf,&e);
	VASSERT(im && w == W && h == H,"opens");
	for(size_t k = 0; k < total; k++) { VASSERT(resdet_read_image_frame(im,buf,&e) && !e,"reads"); memcpy(ref[k],buf,sizeof ref[k]); }
	VASSERT(!resdet_read_image_frame(im,buf,&e) && !e,"ends");
	resdet_close_image(im); free(buf);
	/* the same file, with seeks */
	vf_open_count = vf_close_count = 0;
	bool noerr = nd_choice(0,1);
	im = how.via == 2 ? NULL : resdet_open_image("dir.x/in.bin",ext[FMT],&w,&h,&buf,&e);
	VASSERT(im && !e,"opens again");
	size_t pos = 0;
	for(int step = 0; step < STEPS; step++) {
		uint64_t off = nd_u64();
		bool cb = nd_choice(0,1);
		seen = wrong = 0; e = 99;
		bool ok = resdet_seek_frame(im,off,cb ? progress : NULL,&tag,noerr ? NULL : &e);
		VASSERT(ok == (off <= total-pos),"seeking succeeds exactly when enough frames are left");
		VASSERT(noerr || e == RDEOK,"passing the end is not an error");
		uint64_t passed = v_concretize(off <= total-pos ? off : total-pos);
		VASSERT(wrong == 0 && seen == (cb ? passed : 0),"progress counts the frames passed, in order");
		pos += passed;
		unsigned reads = nd_choice(0,1);
		for(unsigned r = 0; r < reads; r++) {
			e = 99;
			bool got = resdet_read_image_frame(im,buf,noerr ? NULL : &e);
			VASSERT(got == (pos < total) && (noerr || e == RDEOK),"reading continues after the frames passed");
			if(pos < total) {
				for(int i = 0; i < W*H; i++) VASSERT(fbits(buf[i]) == fbits(ref[pos][i]),"the frame after those passed");
				pos++;
			}
		}
	}
	while(pos < total) {
		e = 99;
		VASSERT(resdet_read_image_frame(im,buf,&e) && e == RDEOK,"the frames left are read");
		for(int i = 0; i < W*H; i++) VASSERT(fbits(buf[i]) == fbits(ref[pos][i]),"each frame left");
		pos++;
	}
	e = 99;
	VASSERT(!resdet_read_image_frame(im,buf,&e) && e == RDEOK,"then the sequence ends");
	rd_done(how,im,buf);
	VWITNESS("read");
	return 0;
}
