/* Reference measures, written from the documentation of the methods (doc/, method descriptions). */
#ifndef REF_H
#define REF_H
#include <math.h>
#include <float.h>
#include "an.h"

#define SIGN 0
#define MAG 1
#define ORIG 2
#define ZEROX 3
static const char* const ref_name[] = { "sign","mag","orig","zerox" };
#ifndef M
#define M SIGN
#endif
#define RANGE_OF(m) ((m) == ZEROX ? 1 : R)

/* does the mirrored pair (a,b) / the triple (a,c,b) count? */
static inline int ref_pair(int m, coeff a, coeff c, coeff b) {
	switch(m) {
		case SIGN: case ORIG: return an_neg(a) != an_neg(b);
		case MAG: {
			/* opposite signs and |a| less than twice |b|, where |b| is at least epsilon: a/b in (-2,0) */
			float d = fabsf(b);
			if(!(d > (float)DBL_EPSILON)) d = (float)DBL_EPSILON;
			return fabsf(a/copysignf(d,b)+1) < 1;
		}
		default: return (an_neg(a) != an_neg(b)) & (((a < c) & (c < b)) | ((a > c) & (c > b)));
	}
}
static inline uint64_t ref_count(int m, const coeff* f, size_t n, size_t stride, size_t dist, size_t range, size_t x) {
	uint64_t k = 0;
	for(size_t y = 0; y < n; y++)
		for(size_t d = 1; d <= range; d++)
			k += ref_pair(m,f[y*stride+(x-d)*dist],f[y*stride+x*dist],f[y*stride+(x+d)*dist]);
	return k;
}
/* orig: the sign measure where a dip in mean magnitude separates two similar neighbourhoods, 0 elsewhere */
static inline int ref_dip(const coeff* f, size_t n, size_t stride, size_t dist, size_t range, size_t x) {
	intermediate left = 0, right = 0, mid = 0, diff;
	for(size_t i = 1; i <= range; i++) {
		intermediate l = 0, r = 0;
		for(size_t y = 0; y < n; y++) { l += fabs(f[y*stride+(x-i)*dist]); r += fabs(f[y*stride+(x+i)*dist]); }
		left += l/n; right += r/n;
	}
	for(size_t y = 0; y < n; y++) mid += fabs(f[y*stride+x*dist]);
	mid = mid/n*range;
	diff = fabs(left-right);
	return ((left < right ? left : right) > mid) & (diff < fabs(left-mid)) & (diff < fabs(right-mid));
}
static inline size_t ref_candidates(size_t length, size_t range) { return range < (length+1)/2 ? length-2*range : 0; }
/* |x-y| within tol, for values known to be moderate */
static inline uint32_t fbits_(float f) { union { float f; uint32_t u; } v = { f }; return v.u; }
#ifndef NEAR_DEFINED
#define NEAR_DEFINED
static inline int near(double x, double y, double tol) { double d = x-y; return (d <= tol) & (d >= -tol); }
#endif
#endif
