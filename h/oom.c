/* C13: wherever memory runs out, the call reports it, leaks nothing, and leaves everything usable: repeating the
 * failed call gives what it would have given. */
#include "ref.h"
static coeff spec[NIMG][N]; static unsigned cur;
static void fill(coeff* f, size_t n) { memcpy(f,spec[cur],sizeof spec[0]); }
int main(void) {
	static float img[N];
	for(int m = 0; m < NIMG; m++)
		for(int i = 0; i < N; i++) {
			spec[m][i] = ((i*5+m*3)%7 < 3 ? -1 : 1)*(float)(1+(i*3+m)%5);
			img[i] = i*0.5f;
		}
#ifndef KISS
	vfft_fill = fill;
#endif
	struct map want_w, want_h, got_w, got_h;
	RDMethod* m = resdet_get_method(ref_name[M]);
	RDParameters* p = an_params(R,0,0);
	RDAnalysis* a = an_create(ref_name[M],W,H,p);
	for(cur = 0; cur < NIMG; cur++) VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	an_results(a,W,H,&want_w,&want_h);
	resdet_destroy_analysis(a);
	long base = vm_live;
	vm_fail = 1; vm_fail_budget = BUDGET;
#ifndef KISS
	vfft_plan_may_fail = 1;
#endif
	RDError e;
	int tries = 0;
	do {
		e = 999;
		a = resdet_create_analysis(m,W,H,p,&e);
		VASSERT((a != NULL) == (e == RDEOK),"an analysis or an error");
		if(!a) {
			VASSERT(e == RDENOMEM || e == RDEINTERNAL,"the error says memory ran out (or that the transform could not be planned)");
			VASSERT(vm_failures > 0,"no failure without a cause");
			VASSERT(vm_live == base,"a failed creation leaves nothing behind");
			VWITNESS("creation fails");
		}
		VASSERT(tries++ <= BUDGET,"succeeds once memory is available");
	} while(!a);
	int half = 0;
	for(cur = 0; cur < NIMG; cur++)
		do {
			unsigned before = vm_failures;
			e = resdet_analyze_image(a,img);
			VASSERT(e == RDEOK || (e == RDENOMEM && vm_failures > before),"analysis fails only for want of memory");
			if(e && M == ORIG) half = 1;
			VASSERT(tries++ <= BUDGET*3,"succeeds once memory is available");
		} while(e);
	RDResolution* rw,* rh; size_t cw, ch;
	do {
		unsigned before = vm_failures;
		rw = rh = (void*)1; cw = ch = 99;
		e = resdet_analysis_results(a,&rw,&cw,&rh,&ch);
		if(e) {
			VASSERT(e == RDENOMEM && vm_failures > before,"results fail only for want of memory");
			VASSERT(rw == NULL && rh == NULL && cw == 0 && ch == 0,"no partial results");
			VWITNESS("results fail");
		}
		VASSERT(tries++ <= BUDGET*3+1,"succeeds once memory is available");
	} while(e);
	an_map(rw,cw,W,&got_w); an_map(rh,ch,H,&got_h);
	an_same(&want_w,&got_w,W,half ? "orig: retried image: same results" : "same results as without failures");
	an_same(&want_h,&got_h,H,half ? "orig: retried image: same results" : "same results as without failures");
	free(rw); free(rh);
	resdet_destroy_analysis(a);
	VASSERT(vm_live == base,"everything released");
	VCOVER(vm_failures == BUDGET,"every failure of the budget used");
	return 0;
}
