/* C11: no out-of-bounds access, use after release, uninitialised decision, arithmetic trap or leak for any size, any
 * range up to the largest representable one, any threshold and filter, one or two images, every spectrum. */
#include "ref.h"
#ifndef SMAX
#define SMAX 5
#endif
#ifndef FREE
#define FREE 1
#endif
static void fill(coeff* f, size_t n) {
	VASSERT(v_writable(f,n*sizeof *f),"the spectrum fits its buffer");
	for(size_t i = 0; i < n; i++) {
		coeff v = i%3 == 0 ? -1-(float)i : i%3 == 1 ? (float)i : 3;
		if(i < FREE) { v = nd_f32(); VASSUME(an_finite(v)); }
		f[i] = v;
	}
}
int main(void) {
	size_t w = nd_choice(1,SMAX), h = nd_choice(1,SMAX);
	size_t range = nd_u64(); uint32_t filter = nd_choice(0,1);
	VASSUME(range >= 1);
	float t = nd_choice(0,1)*0.5f;
	RDParameters* p = an_params(range,t,filter ? filter+nd_choice(0,1)*30 : 0);
	RDAnalysis* a = an_create(ref_name[M],w,h,p);
	free(p);
	float* img = malloc(w*h*sizeof *img);       /* exactly the documented size */
	for(size_t i = 0; i < w*h; i++) img[i] = i*0.25f;
	vfft_fill = fill;
	size_t k = nd_choice(1,2);
	for(size_t m = 0; m < k; m++)
		VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	RDResolution* rw,* rh; size_t cw, ch;
	VASSERT(resdet_analysis_results(a,&rw,&cw,&rh,&ch) == RDEOK,"results generated");
	VASSERT(cw >= 1 && cw <= w && ch >= 1 && ch <= h,"no more results than sizes");
	VASSERT(v_valid(rw,cw*sizeof *rw) && v_valid(rh,ch*sizeof *rh),"the lists hold count elements");
	VASSERT(rw[cw-1].index == w && rh[ch-1].index == h,"the lists end with the original");
	VCOVER(cw > 1 && ch > 1,"candidates in both dimensions");
	VCOVER(cw == 1 && w == SMAX,"range too large for any candidate");
	free(rw); free(rh); free(img);
	resdet_destroy_analysis(a);
	VASSERT(vm_live == 0,"everything released");
	return 0;
}
