/* C21: float maps: bottom row first, either byte order, gray or the mean of colour, any number of frames of one size. */
#include "rd.h"
#ifndef FR
#define FR 2
#endif
static int frames; static bool color[FR], big[FR]; static float want[FR][16]; static uint32_t bits[FR][16];
static void put_float(uint32_t u, bool b) { for(int k = 0; k < 4; k++) pc(u >> 8*(b ? 3-k : k)); }
int main(void) {
	size_t W = nd_choice(MINW,MAXW), H = nd_choice(MINH,MAXH);
	frames = nd_choice(1,FR);
	static const char* const le[] = { "-1.0","-1","-0.5","-255.000000" },* const be[] = { "1.0","1","0.25","+1.0" };
	for(int k = 0; k < frames; k++) {
		color[k] = nd_choice(0,1); big[k] = nd_choice(0,1);
		unsigned v = k == 0 && VAR ? nd_choice(0,3) : 0;
		ps(color[k] ? "PF" : "Pf");
		pc(k == 0 && v == 1 ? ' ' : '\n');
		if(k == 0 && v == 2) ps("# comment 1\n#\n");
		pn(W); pc(v == 3 ? '\n' : ' '); pn(H); pc('\n'); ps((big[k] ? be : le)[v]);
		pc(v == 1 ? ' ' : '\n');
		for(size_t y = 0; y < H; y++) for(size_t x = 0; x < W; x++) {
			size_t i = (H-1-y)*W+x;
			if(!color[k]) { bits[k][i] = nd_u32(); put_float(bits[k][i],big[k]); }
			else {
				/* colour samples: any whole numbers, so that their mean is exact up to one division */
				float s = 0;
				for(int c = 0; c < 3; c++) { float f = (int16_t)nd_u16(); s += f; put_float(fbits(f),big[k]); }
				want[k][i] = s/3;
			}
		}
	}
	struct how how = HOW ? rd_how() : (struct how){ 0,true };
	size_t w = 77, h = 77; float* buf = NULL; RDError e = 99;
	RDImage* im = rd_open(how,"pfm","PFM",&w,&h,&buf,&e);
	VASSERT(im != NULL && e == RDEOK,"a valid float map opens");
	VASSERT(w == W && h == H,"dimensions as in the header");
	VASSERT(buf != NULL && v_writable(buf,w*h*sizeof *buf),"an image buffer of width*height samples");
	for(int k = 0; k < frames; k++) {
		e = 99;
		VASSERT(resdet_read_image_frame(im,buf,&e) && e == RDEOK,"each frame is read");
		for(size_t i = 0; i < W*H; i++)
			if(!color[k]) { uint32_t u; memcpy(&u,&buf[i],4); VASSERT(u == bits[k][i],"gray samples bit for bit, top row first"); }
			else VASSERT((fbits(buf[i]) == fbits(want[k][i])) | near(buf[i],want[k][i],1e-2),"colour samples are the mean of the components, top row first");
	}
	e = 99;
	VASSERT(!resdet_read_image_frame(im,buf,&e) && e == RDEOK,"then the sequence ends without an error");
	rd_done(how,im,buf);
	VCOVER(frames == FR && (FR == 1 || color[0] != color[FR-1]),"mixed formats");
	VWITNESS("read");
	return 0;
}
