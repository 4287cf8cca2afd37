/* C45: analyses are independent: each of several, of different methods and sizes, interleaved or one after the other, gives
 * the measure of its own frames. */
#ifndef WA
#define WA 4
#define HA 1
#define WB 4
#define HB 1
#endif
#define W (WA*HA > WB*HB ? WA : WB)
#define H (WA*HA > WB*HB ? HA : HB)
#define LMAX 64
#include "ref.h"
static const size_t ws[2] = {WA,WB}, hs[2] = {HA,HB};
static const int ms[2] = {MA,MB};
static coeff spec[2][NIMG][N];
static unsigned which, frame[2];
static void fill(coeff* f, size_t n) {
	VASSERT(n == ws[which]*hs[which],"transform covers the image");
	for(size_t i = 0; i < n; i++) f[i] = spec[which][frame[which]%NIMG][i];
	frame[which]++;
}
static float img[N];
static RDAnalysis* create(unsigned k) {
	RDParameters* p = an_params(R,0,0);
	RDAnalysis* a = an_create(ref_name[ms[k]],ws[k],hs[k],p);
	free(p);
	return a;
}
static void feed(unsigned k, RDAnalysis* a) { which = k; VASSERT(resdet_analyze_image(a,img) == RDEOK,"analysed"); }
static void list(unsigned k, const struct map* m, size_t length, size_t n, size_t stride, size_t dist, int frames) {
	size_t range = ms[k] == ZEROX ? 1 : R, cand = ref_candidates(length,range);
	VASSERT(m->n == cand+1,"every candidate listed");
	for(size_t x = range; x < length-range && cand; x++) {
		double e = 0;
		for(int i = 0; i < frames; i++) {
			int d = ms[k] == ORIG ? ref_dip(spec[k][i],n,stride,dist,range,x) : 1;
			uint64_t c = ref_count(ms[k],spec[k][i],n,stride,dist,range,x);
			e += d ? c/((double)range*n) : 0;
		}
		VASSERT(m->has[x] && near(m->conf[x],e/frames,1e-6),"an analysis gives the measure of its own frames, whatever other analyses do");
	}
}
static void judge(unsigned k, RDAnalysis* a, int frames) {
	struct map mw, mh;
	an_results(a,ws[k],hs[k],&mw,&mh);
	list(k,&mw,ws[k],hs[k],ws[k],1,frames);
	list(k,&mh,hs[k],ws[k],1,ws[k],frames);
}
int main(void) {
	for(int k = 0; k < 2; k++) for(int m = 0; m < NIMG; m++) for(int i = 0; i < WA*HA || i < WB*HB; i++) {
		if((i*23+m*3+k*7+1)%FREEMOD) spec[k][m][i] = ((i*7+m*5+k*3)%11 < 5 ? -1 : 1)*(coeff)(8*((i*3+m+k)%6));
		else spec[k][m][i] = (coeff)((int16_t)nd_u16()*8);
	}
	vfft_fill = fill;
	RDAnalysis* a = create(0),* b;
	feed(0,a);
	b = create(1);
	for(int m = 0; m < NIMG; m++) feed(1,b);
	judge(0,a,1);
	for(int m = 1; m < NIMG; m++) feed(0,a);
	judge(1,b,NIMG);
	if(nd_choice(0,1)) { resdet_destroy_analysis(b); judge(0,a,NIMG); resdet_destroy_analysis(a); VWITNESS("second released first"); }
	else { judge(0,a,NIMG); resdet_destroy_analysis(a); judge(1,b,NIMG); resdet_destroy_analysis(b); VWITNESS("first released first"); }
	/* and once more, alone */
	unsigned k = nd_choice(0,1);
	frame[k] = 0;
	a = create(k);
	feed(k,a);
	judge(k,a,1);
	resdet_destroy_analysis(a);
	VASSERT(vm_live == 0,"everything released");
	return 0;
}
