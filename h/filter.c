/* C16: the compression filter only removes candidates, by position alone; 0 removes none; higher values leave no more. */
#include "ref.h"
static coeff spec[N];
static void fill(coeff* f, size_t n) { memcpy(f,spec,sizeof spec); }
static void go(unsigned v, float t, struct map* m) {
	RDParameters* p = an_params(R,t,v);
	RDAnalysis* a = an_create(ref_name[M],W,H,p);
	static float img[N];
	for(int k = 0; k < NIMG; k++) VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	if(DIM == 0) an_results(a,W,H,m,NULL); else an_results(a,W,H,NULL,m);
	free(p);
	resdet_destroy_analysis(a);
}
int main(void) {
	vfft_fill = fill;
	size_t length = DIM == 0 ? W : H;
	for(int i = 0; i < N; i++) {
		spec[i] = (i%5 < 2 ? -1 : 1)*(float)(1+(i*3)%5);
		if(i >= N/2 && i < N/2+FREE) { spec[i] = nd_f32(); VASSUME(an_finite(spec[i])); }
	}
	unsigned v = nd_choice(0,31);
	struct map none, some, next, cut;
	go(0,0,&none);
	VASSERT(none.n == ref_candidates(length,RANGE_OF(M))+1,"value 0 removes nothing");
	go(v,0,&some);
	for(size_t x = 1; x <= length; x++)
		if(some.has[x]) VASSERT(none.has[x] && some.conf[x] == none.conf[x],"the filter adds nothing and alters no confidence");
	VASSERT(some.n <= none.n,"the filter adds nothing");
	if(v == 0) an_same(&none,&some,length,"value 0 removes nothing");
	VCOVER(some.n > 2 && some.n < none.n,"some are removed");
	/* the filter works at even intervals: it keeps one candidate in 2^v (as built), or drops the multiples of size/2^v (as documented) */
	size_t first = RANGE_OF(M);
	bool built = true, doc = true;
	for(size_t x = 1; x < length; x++) if(none.has[x]) {
		built &= some.has[x] == ((x-first) % ((size_t)1 << v) == 0);
		doc &= some.has[x] == !((x << v) % length == 0);
	}
	VASSERT(v == 0 || built || doc,"the filter works at even intervals set by its value");
	if(v && v < 31) {
		go(v+1,0,&next);
		VASSERT(next.n <= some.n,"a higher value leaves no more results");
	}
	float t = an_unit();
	go(v,t,&cut);
	for(size_t x = 1; x < length; x++)
		VASSERT(cut.has[x] == (some.has[x] && some.conf[x] >= t),"filter and threshold apply independently");
	/* another spectrum: the same positions survive */
	for(int i = 0; i < N; i++) spec[i] = (i%7 < 3 ? 1 : -1)*(float)(1+(i*5)%7);
	go(v,0,&cut);
	for(size_t x = 1; x < length; x++)
		VASSERT(cut.has[x] == some.has[x],"what the filter removes depends on the position only");
	return 0;
}
