/* C14: output parameters: always defined, optional individually, consistent with the returned error, also when memory
 * runs out. */
#include "ref.h"
static void fill(coeff* f, size_t n) { for(size_t i = 0; i < n; i++) f[i] = i%3 ? 1.f : -1.f; }
static float img[2*N];
int main(void) {
	vfft_fill = fill;
	RDResolution junk[1] = {{7,7}},* rw = junk,* rh = junk; size_t cw = 99, ch = 99;
	bool hw = nd_choice(0,1), hcw = nd_choice(0,1), hh = nd_choice(0,1), hch = nd_choice(0,1);
	unsigned images = nd_choice(0,2);
	RDParameters* p = an_params(R,0,0);
	RDError e; bool null = false;
	long base;
#ifdef ONECALL
	int kind = nd_choice(0,2);      /* 0: fine, 1: NULL image, 2: non-finite second image */
	if(kind == 2) img[N] = 1.f/0.f;
	null = kind == 1;
	base = vm_live;
	RDMethod* m = nd_choice(0,1) ? resdet_get_method(ref_name[M]) : NULL;
	vm_fail = 1; vm_fail_budget = 1; unsigned before = vm_failures;
	e = resdetect(null ? NULL : img,images,W,H,hw ? &rw : NULL,hcw ? &cw : NULL,hh ? &rh : NULL,hch ? &ch : NULL,m,p);
	vm_fail = 0;
	bool nonfinite = kind == 2 && images == 2;
#else
	RDAnalysis* a = an_create(ref_name[M],W,H,p);
	if(nd_choice(0,1)) VASSERT(resdet_analyze_image(a,NULL) == RDEPARAM,"NULL image refused");
	VASSERT(resdet_analyze_image(NULL,img) == RDEPARAM,"NULL analysis refused");
	for(unsigned i = 0; i < images; i++) VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	null = nd_choice(0,1);
	base = vm_live;
	vm_fail = 1; vm_fail_budget = 1; unsigned before = vm_failures;
	e = resdet_analysis_results(null ? NULL : a,hw ? &rw : NULL,hcw ? &cw : NULL,hh ? &rh : NULL,hch ? &ch : NULL);
	vm_fail = 0;
	bool nonfinite = false;
#endif
	if(hw) VASSERT(rw != junk,"the widths pointer is always set");
	if(hh) VASSERT(rh != junk,"the heights pointer is always set");
	if(hcw) VASSERT(cw != 99,"the width count is always set");
	if(hch) VASSERT(ch != 99,"the height count is always set");
	if((hw && !hcw) || (hh && !hch)) { VASSERT(e == RDEPARAM,"a list without its count is refused"); VWITNESS("refused"); }
	else if(null) VASSERT(e == RDEPARAM,"a missing argument is refused");
	else if(!images) { VASSERT(e == RDENOIMG,"no images, no results"); VWITNESS("no images"); }
	else if(nonfinite && vm_failures == before) VASSERT(e == RDEINVAL,"invalid image");
	else if(vm_failures > before) { VASSERT(e == RDENOMEM,"out of memory"); VWITNESS("out of memory"); }
	else {
		VASSERT(e == RDEOK,"succeeds");
		if(hw) { struct map m; an_map(rw,cw,W,&m); VASSERT(m.n == ref_candidates(W,RANGE_OF(M))+1,"all the widths"); free(rw); }
		else if(hcw) VASSERT(cw == 0,"a count without a list is zero");
		if(hh) { struct map m; an_map(rh,ch,H,&m); VASSERT(m.n == ref_candidates(H,RANGE_OF(M))+1,"all the heights"); free(rh); }
		else if(hch) VASSERT(ch == 0,"a count without a list is zero");
		VASSERT(vm_live == base,"nothing but the lists is allocated");
		VWITNESS("results");
		return 0;
	}
	if(hw) VASSERT(rw == NULL,"no list on error");
	if(hh) VASSERT(rh == NULL,"no list on error");
	if(hcw) VASSERT(cw == 0,"zero count on error");
	if(hch) VASSERT(ch == 0,"zero count on error");
	VASSERT(vm_live == base,"nothing left behind on error");
	return 0;
}
