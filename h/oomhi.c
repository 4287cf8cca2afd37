/* C13: memory failures inside the one-call interfaces and parameter allocation */
#include "ref.h"
static void fill(coeff* f, size_t n) { for(size_t i = 0; i < n; i++) f[i] = i%3 ? 1.f : -1.f; }
int main(void) {
	static float img[2*N];
#ifndef KISS
	vfft_fill = fill;
	vfft_plan_may_fail = 1;
#endif
	vm_fail = 1; vm_fail_budget = BUDGET;
	RDParameters* p = resdet_alloc_default_parameters();
	VASSERT(p || vm_failures,"parameters unless memory ran out");
	unsigned before = vm_failures;
	long base = vm_live;
	RDResolution* rw = (void*)1,* rh = (void*)1; size_t cw = 99, ch = 99;
	if(p) resdet_parameters_set_range(p,R);
	RDError e = resdetect(img,2,W,H,&rw,&cw,&rh,&ch,resdet_get_method(ref_name[M]),p);
	if(e) {
		VASSERT(e == RDENOMEM || e == RDEINTERNAL,"the error says why");
		VASSERT(vm_failures > before,"no failure without a cause");
		VASSERT(rw == NULL && rh == NULL && cw == 0 && ch == 0,"no partial results");
		VASSERT(vm_live == base,"a failed call leaves nothing behind");
		VWITNESS("fails");
	}
	else {
		VASSERT(vm_failures == before,"a failure is never ignored");
		VASSERT(rw && rh && cw && ch && rw[cw-1].index == W && rh[ch-1].index == H,"complete results");
		free(rw); free(rh);
		VASSERT(vm_live == base,"everything released");
		VWITNESS("succeeds");
	}
	return 0;
}
