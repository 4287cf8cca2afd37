/* C04-C07: for every spectrum, the confidence reported for each candidate is the documented measure,
 * averaged over lines, distances and images. */
#include "ref.h"
#ifndef DIM
#define DIM 0
#endif
static void check(const RDResolution* r, size_t c, size_t length, size_t n, size_t stride, size_t dist) {
	size_t range = RANGE_OF(M), cand = ref_candidates(length,range);
	VASSERT(c == cand+1,"threshold 0 lists every candidate and the original size");
	unsigned char seen[W+H] = {0};
	for(size_t i = 0; i < c; i++) {
		size_t x = r[i].index;
		VASSERT(x <= length,"index is a size up to the original");
		VASSERT(!seen[x],"each size listed once");
		seen[x] = 1;
		if(x == length) { VASSERT(r[i].confidence == -1,"original size has confidence -1"); continue; }
		VASSERT(x >= range && x < length-range,"candidate within [range, length-range)");
#if M == ORIG
		double e = 0;
		for(size_t m = 0; m < NIMG; m++) {
			int d = ref_dip(an_coef[m],n,stride,dist,range,x);
			uint64_t k = ref_count(M,an_coef[m],n,stride,dist,range,x);
			e += d ? k/((double)range*n) : 0;
		}
		e /= NIMG;
#else
		uint64_t k = 0;
		for(size_t m = 0; m < NIMG; m++)
			k += ref_count(M,an_coef[m],n,stride,dist,range,x);
		double e = k/((double)NIMG*n*range);
#endif
		VASSERT(near(r[i].confidence,e,1e-6),"confidence is the documented measure of the spectrum about the candidate");
	}
}
int main(void) {
	RDParameters* p = resdet_alloc_default_parameters();
	VASSERT(resdet_parameters_set_range(p,R) == RDEOK && resdet_parameters_set_threshold(p,0) == RDEOK,"parameters accepted");
	RDError e;
	RDAnalysis* a = resdet_create_analysis(resdet_get_method(ref_name[M]),W,H,p,&e);
	VASSERT(a && e == RDEOK,"analysis created");
	vfft_fill = an_fill;
	static float img[N];
	for(int m = 0; m < NIMG; m++)
		VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	RDResolution* r; size_t c;
	if(DIM == 0) {
		VASSERT(resdet_analysis_results(a,&r,&c,NULL,NULL) == RDEOK,"results generated");
		check(r,c,W,H,W,1);
	} else {
		VASSERT(resdet_analysis_results(a,NULL,NULL,&r,&c) == RDEOK,"results generated");
		check(r,c,H,W,1,W);
	}
	VWITNESS("results checked");
	VCOVER(c > 1 && r[0].confidence > 0.9f,"a candidate with full confidence");
#ifndef FREELINES
#define FREELINES 0
#endif
	VCOVER(c > 1 && (r[0].confidence == 0 || FREELINES),"a candidate with no confidence");
	return 0;
}
