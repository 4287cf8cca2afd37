/* C01, C03, C09: with a method whose measure is arbitrary (any float in [0,1] for each candidate and image): the list
 * is sorted, complete, distinct, and thresholded exactly. */
#include "ref.h"
#if defined(MANY) && W+H > 200
#define FREECONF (nd_u8() & 7)/7.f
#elif NIMG == 1
#define FREECONF an_unit()
#else
#define FREECONF (nd_u8() & 31)/31.f
#endif
static float conf[2][NIMG][LMAX]; static unsigned img_no; static size_t seen_len[2];
static RDError any(const coeff* restrict f, size_t length, size_t n, size_t stride, size_t dist, size_t range, intermediate* restrict result, rdint_index* restrict start, rdint_index* restrict end) {
	int d = stride == 1 && !(dist == 1);
	VASSERT(*start == range && *end == length-range,"candidates are the sizes with range neighbours on each side");
	for(size_t x = *start; x < *end; x++) result[x-*start] += conf[d][img_no][x];
	return RDEOK;
}
int main(void) {
	RDetectFunc fn = any;       /* checked against the library's own type */
	RDMethod m = { "any",(void(*)(void))fn,0.5f };
#ifdef MANY
	float t = nd_choice(0,1) ? 0 : .25f;
#else
	float t = an_unit();
#endif
	RDParameters* p = an_params(R,t,0);
	RDError e;
	RDAnalysis* a = resdet_create_analysis(&m,W,H,p,&e);
	free(p);
	VASSERT(a != NULL,"created");
	static float img[N];
	vfft_fill = NULL;
	for(img_no = 0; img_no < NIMG; img_no++) {
		for(int d = 0; d < 2; d++) for(int x = R; x < (d ? H : W)-R; x++) {
#ifdef MANY
			/* most of many candidates concrete, in no order and with ties */
			float c = d == (H > W) && x == (d ? H : W)/2 && img_no%MANY == MANY/2 ? FREECONF : (float)((x*37+d*11+img_no*5)%97)/96.f;
#elif defined(NEAR)
			/* 128 neighbouring floats, 0, and 127 powers of two up to 1 */
			union { uint32_t u; float f; } b;
			unsigned k = nd_u8(), hi = -(k >> 7);
			b.u = (hi & (0x3F000000+(k & 127))) | (~hi & ((k & 127) << 23));
			float c = b.f;
#else
			float c = FREECONF;
#endif
			conf[d][img_no][x] = c;
		}
		VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	}
	RDResolution* r[2]; size_t c[2];
	VASSERT(resdet_analysis_results(a,&r[0],&c[0],&r[1],&c[1]) == RDEOK,"results generated");
	for(int d = 0; d < 2; d++) {
		size_t length = d ? H : W;
		struct map mm;
		an_map(r[d],c[d],length,&mm);
		VASSERT(r[d][c[d]-1].index == length,"the original is the final element");
		for(size_t i = 1; i < c[d]; i++) VASSERT(r[d][i-1].confidence >= r[d][i].confidence,"descending confidence");
#if NIMG == 1
		for(size_t x = 1; x < length; x++) {
			bool cand = x >= R && x < length-R;
			VASSERT(mm.has[x] == (cand && conf[d][0][x] >= t),"listed exactly when the confidence reaches the threshold");
			if(mm.has[x]) VASSERT(fbits_(mm.conf[x]) == fbits_(conf[d][0][x]) || mm.conf[x] == conf[d][0][x],"the confidence of the measure");
		}
#else
		for(size_t x = 1; x < length; x++) {
			double s = 0;
			for(int k = 0; k < NIMG; k++) s += conf[d][k][x];
			s /= NIMG;
			bool cand = x >= R && x < length-R;
			VASSERT(!mm.has[x] || cand,"only candidates");
			if(cand) { VASSERT(mm.has[x] || s < t+1e-6,"a mean that reaches the threshold is listed"); VASSERT(!mm.has[x] || s > t-1e-6,"and no other"); }
			if(mm.has[x]) VASSERT(near(mm.conf[x],s,1e-6),"the mean of the measure");
		}
#endif
#ifndef MANY
		VCOVER(c[d] == 3,"two candidates listed");
		VCOVER(c[d] == 1,"none listed");
#endif
		free(r[d]);
	}
	resdet_destroy_analysis(a);
	VASSERT(vm_live == 0,"everything released");
	return 0;
}
