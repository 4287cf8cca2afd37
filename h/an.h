/* shared by the analysis harnesses */
#ifndef AN_H
#define AN_H
#include <stdlib.h>
#include <string.h>
#include "resdet_internal.h"
#include "fftw.h"
#ifndef W
#define W 5
#endif
#ifndef H
#define H 2
#endif
#ifndef R
#define R 1
#endif
#ifndef DIM
#define DIM 0
#endif
#ifndef NIMG
#define NIMG 1
#endif
#define N (W*H)

static inline int an_finite(coeff v) {
	if(sizeof(coeff) == 8) { union { coeff c; uint64_t u; } b; b.u = 0; b.c = v; return (b.u >> 52 & 0x7FF) != 0x7FF; }
	union { coeff c; uint32_t u; } b; b.c = v; return (b.u >> 23 & 0xFF) != 0xFF;
}
static unsigned an_frame; static coeff an_coef[NIMG][N];
/* every coefficient is an arbitrary finite float (the DCT of a finite image) */
static void an_fill(coeff* f, size_t n) {
	VASSERT(n == N,"transform covers width*height samples");
	for(size_t i = 0; i < N; i++) {
		coeff v;
#ifdef FREELINES
		/* lines past the first FREELINES: full confidence for sign and zerox */
		size_t line = DIM ? i%W : i/W, pos = DIM ? i/W : i%W;
		if(line >= FREELINES) { v = pos%4 < 1 ? 2 : pos%4 < 2 ? 1 : -2; f[i] = v; if(an_frame < NIMG) an_coef[an_frame][i] = v; continue; }
#endif
#ifdef FREEMOD
		/* one coefficient in FREEMOD is free, the others follow a pattern with all signs and ties */
#ifdef FULL
		/* the others give the middle candidate full confidence in every measure */
		size_t line = DIM ? i%W : i/W, pos = DIM ? i/W : i%W, mid = ((DIM ? H : W)-1)/2;
		if((i*23+an_frame*3+1)%FREEMOD) { v = (pos < mid ? -1 : pos > mid)*(coeff)(8*(line%5+1)); f[i] = v; if(an_frame < NIMG) an_coef[an_frame][i] = v; continue; }
#else
		if((i*23+an_frame*3+1)%FREEMOD) { v = ((i*7+an_frame*5)%11 < 5 ? -1 : 1)*(coeff)(8*((i*3+an_frame)%6)); f[i] = v; if(an_frame < NIMG) an_coef[an_frame][i] = v; continue; }
#endif
#endif
#ifdef INTCOEF
		/* any multiple of 8 in [-2^18,2^18): exact in every sum, and in every mean over 1, 2, 4 or 8 lines */
		v = (coeff)((int16_t)nd_u16()*8);
#else
		v = sizeof(coeff) == 8 ? nd_f64() : nd_f32();
		VASSUME(an_finite(v));
#endif
		f[i] = v;
		if(an_frame < NIMG) an_coef[an_frame][i] = v;
	}
	an_frame++;
}
/* any float in [0,1] */
static inline float an_unit(void) { union { float f; uint32_t u; } b; b.u = nd_u32() & 0x3FFFFFFF; VASSUME(b.u <= 0x3F800000); return b.f; }
static inline int an_neg(coeff v) { return __builtin_signbit(v) != 0; }

/* ---- results as a map from size to confidence ---- */
#ifndef LMAX
#define LMAX ((W) > (H) ? (W) : (H))
#endif
struct map { size_t n; unsigned char has[LMAX+1]; float conf[LMAX+1]; };
/* every results list: non-empty, sizes distinct, the original present exactly once with confidence -1 */
static inline void an_map(const RDResolution* r, size_t c, size_t length, struct map* m) {
	memset(m,0,sizeof *m);
	VASSERT(r != NULL && c >= 1,"a results list is never empty");
	m->n = c;
	for(size_t i = 0; i < c; i++) {
		size_t x = r[i].index;
		VASSERT(x >= 1 && x <= length,"listed sizes lie between 1 and the original");
		VASSERT(!m->has[x],"each size listed once");
		m->has[x] = 1; m->conf[x] = r[i].confidence;
	}
	VASSERT(m->has[length] && m->conf[length] == -1,"the original size is listed with confidence -1");
}
static inline void an_same(const struct map* a, const struct map* b, size_t length, const char* what) {
	VASSERT(a->n == b->n,what);
	for(size_t x = 0; x <= length; x++) {
		VASSERT(a->has[x] == b->has[x],what);
		if(a->has[x]) VASSERT(a->conf[x] == b->conf[x],what);
	}
}
static inline RDParameters* an_params(size_t range, float threshold, unsigned filter) {
	RDParameters* p = resdet_alloc_default_parameters();
	VASSERT(p != NULL,"parameters allocated");
	if(range) VASSERT(resdet_parameters_set_range(p,range) == RDEOK,"range accepted");
	if(threshold >= 0) VASSERT(resdet_parameters_set_threshold(p,threshold) == RDEOK,"threshold accepted");
	VASSERT(resdet_parameters_set_compression_filter(p,filter) == RDEOK,"filter accepted");
	return p;
}
static inline RDAnalysis* an_create(const char* method, size_t w, size_t h, const RDParameters* p) {
	RDError e = 12345;
	RDAnalysis* a = resdet_create_analysis(method ? resdet_get_method(method) : NULL,w,h,p,&e);
	VASSERT(a != NULL && e == RDEOK,"analysis created");
	return a;
}
static inline void an_results(RDAnalysis* a, size_t w, size_t h, struct map* mw, struct map* mh) {
	RDResolution* rw = NULL,* rh = NULL; size_t cw = 99, ch = 99;
	VASSERT(resdet_analysis_results(a,mw ? &rw : NULL,mw ? &cw : NULL,mh ? &rh : NULL,mh ? &ch : NULL) == RDEOK,"results generated");
	if(mw) { an_map(rw,cw,w,mw); free(rw); }
	if(mh) { an_map(rh,ch,h,mh); free(rh); }
}
#endif
