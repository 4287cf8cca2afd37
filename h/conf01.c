/* C02: every reported confidence is a number in [0,1] (the original's -1 aside), for every method, any spectrum. */
#include "ref.h"
int main(void) {
	RDAnalysis* a = an_create(ref_name[M],W,H,an_params(R,0,0));
	vfft_fill = an_fill;
	static float img[N];
	for(int m = 0; m < NIMG; m++) {
#ifdef REFUSED
		/* frames that are refused, before each good one */
		for(int k = nd_choice(0,REFUSED); k > 0; k--) { int at = nd_choice(0,1)*(N-1); img[at] = k > 1 ? NAN : INFINITY; VASSERT(resdet_analyze_image(a,img) == RDEINVAL,"refused"); img[at] = 0; }
#endif
		VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	}
	struct map mw, mh;
	if(DIM == 0) an_results(a,W,H,&mw,NULL); else an_results(a,W,H,NULL,&mh);
	struct map* m = DIM == 0 ? &mw : &mh; size_t length = DIM == 0 ? W : H;
	VASSERT(m->n == ref_candidates(length,RANGE_OF(M))+1,"threshold 0 returns a result for every line with enough neighbours");
	for(size_t x = 1; x < length; x++)
		if(m->has[x]) {
			VASSERT(m->conf[x] >= 0 && m->conf[x] <= 1,"confidence in [0,1]");
			VCOVER(m->conf[x] == 1,"confidence 1");
			VCOVER(m->conf[x] == 0,"confidence 0");
		}
	return 0;
}
