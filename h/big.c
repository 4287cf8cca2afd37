/* C20-C23, C28: images, headers and sequences past 8 bits and past common buffer sizes: one sample in SPARSE is free. */
#define FBSIZE (1 << 20)
#include "rd.h"
enum { PGM, PFM, PFMC, Y4M, Y4MD };
#define N ((size_t)W*H)
static float want[FR][W*H]; static uint8_t exact[FR][W*H];
static void filler(size_t n) { for(size_t i = 0; i < n; i++) pc("P5 9 9 255 FRAME W3"[i%19]); }
static void put_float(uint32_t u, bool b) { for(int k = 0; k < 4; k++) pc(u >> 8*(b ? 3-k : k)); }
int main(void) {
	size_t chroma = FMT == Y4M ? 2*((W+1)/2)*((H+1)/2) : FMT == Y4MD ? 2*2*((W+3)/4)*H : 0;
	if(FMT == Y4M || FMT == Y4MD) {
		ps("YUV4MPEG2 ");
		if(LONG) { pc('X'); for(int i = 0; i < LONG; i++) pc("WHC420ab"[i%8]); pc(' '); }
		ps("W"); pn(W); ps(" H"); pn(H); if(FMT == Y4MD) ps(" C411p10");
		if(LONG) { ps(" F30000:1001 X"); for(int i = 0; i < LONG; i++) pc("WHC420ab"[i%8]); }
		pc('\n');
	}
	for(size_t k = 0; k < FR; k++) {
		bool big = k%2, color = FMT == PFMC;
		if(FMT == PGM) { ps("P5\n"); if(LONG) { pc('#'); filler(LONG); pc('\n'); for(int i = 0; i < LONG; i++) pc(i%16 ? ' ' : '\n'); } pn(W); pc('\n'); if(LONG) for(int i = 0; i < LONG; i++) pc(' '); pn(H); ps(" 255\n"); }
		if(FMT == PFM || FMT == PFMC) {
			ps(color ? "PF\n" : "Pf\n");
			if(LONG && !k) { pc('#'); filler(LONG); pc('\n'); }
			pn(W); pc(' '); pn(H); ps(big ? "\n1.0000000000000000000\n" : "\n-1.0\n");
		}
		if(FMT == Y4M || FMT == Y4MD) { ps("FRAME"); if(LONG) { ps(" X"); for(int i = 0; i < LONG; i++) pc("FRAMEab"[i%7]); } pc('\n'); }
		for(size_t y = 0; y < H; y++) for(size_t x = 0; x < W; x++) {
			size_t i = FMT == PFM || FMT == PFMC ? (H-1-y)*W+x : y*W+x;
			bool isfree = (y*W+x+k*7)%SPARSE == SPARSE-1;
			exact[k][i] = FMT == PFM;
			if(FMT == PGM || FMT == Y4M) { uint8_t v = isfree ? nd_u8() : (i*7+k*3)%251; pc(v); want[k][i] = v/255.f; }
			else if(FMT == Y4MD) { uint16_t v = isfree ? nd_u16() & 1023 : (i*77+k*3)%1021; pc(v); pc(v >> 8); want[k][i] = v/1023.f; }
			else if(FMT == PFM) { union { uint32_t u; float f; } v; if(isfree) v.u = nd_u32(); else v.f = i+k*.25f; put_float(v.u,big); memcpy(&want[k][i],&v.u,4); }
			else { float s = 0; for(int c = 0; c < 3; c++) { float v = isfree ? (int16_t)nd_u16() : (float)((i*3+c*5+k)%1000); s += v; put_float(fbits(v),big); } want[k][i] = s/3; }
		}
		for(size_t i = 0; i < chroma; i++) pc("FRAME\n"[i%6]);
	}
	static const char* const ext[] = { "pgm","pfm","pfm","y4m","y4m" };
	VASSERT(fn <= sizeof fb,"model: file fits");
	vf_file("in",fb,fn,nd_choice(0,1));
	size_t w = 5, h = 5; float* buf = NULL; RDError e = 99;
	bool one = nd_choice(0,1);
	if(one) {
		size_t n = 99;
		e = resdet_read_image("in",ext[FMT],&buf,&n,&w,&h);
		VASSERT(e == RDEOK && n == FR && w == W && h == H,"read in one call");
		for(size_t k = 0; k < FR; k++) for(size_t i = 0; i < N; i++)
			VASSERT((fbits(buf[k*N+i]) == fbits(want[k][i])) | (!exact[k][i] & near(buf[k*N+i],want[k][i],FMT == PFMC ? 1e-2 : 1e-6)),"every sample in place");
		free(buf);
	}
	else {
		RDImage* im = resdet_open_image("in",ext[FMT],&w,&h,&buf,&e);
		VASSERT(im != NULL && e == RDEOK && w == W && h == H,"opens");
		static const size_t at[] = { 0,1,FR/2,FR > 260 ? 257 : FR-1,FR-1,FR };
		size_t k = at[nd_choice(0,FR > 2 ? 5 : FR-1)];
		e = 99;
		if(k || FR == 2) VASSERT(resdet_seek_frame(im,k,NULL,NULL,&e) && e == RDEOK,"seeks");
		for(; k < FR; k++) {
			e = 99;
			VASSERT(resdet_read_image_frame(im,buf,&e) && e == RDEOK,"each frame is read");
			for(size_t i = 0; i < N; i++)
				VASSERT((fbits(buf[i]) == fbits(want[k][i])) | (!exact[k][i] & near(buf[i],want[k][i],FMT == PFMC ? 1e-2 : 1e-6)),"every sample in place");
		}
		e = 99;
		VASSERT(!resdet_read_image_frame(im,buf,&e) && e == RDEOK,"then the sequence ends without an error");
		resdet_close_image(im);
		free(buf);
	}
	VASSERT(vm_live == 0,"everything released");
	VWITNESS("read");
	return 0;
}
