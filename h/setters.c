/* C15: parameter setters accept exactly the documented values; a refused value changes nothing; settings are independent. */
#include "ref.h"
#ifdef WEAK
#endif
static coeff spec[N];
static void fill(coeff* f, size_t n) { memcpy(f,spec,sizeof spec); }
static void results(const RDParameters* p, struct map* mw) {
	RDAnalysis* a = an_create(ref_name[M],W,H,p);
	static float img[N];
	VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	an_results(a,W,H,mw,NULL);
	resdet_destroy_analysis(a);
}
int main(void) {
	vfft_fill = fill;
	for(int i = 0; i < N; i++) spec[i] = ((i*5)%7 < 3 ? -1 : 1)*(float)(1+(i*3)%5);
	size_t r = nd_u64(); union { uint32_t u; float f; } t; t.u = nd_u32(); uint8_t v = nd_u8();
	bool rok = r >= 1, tok = t.f >= 0 && t.f <= 1, vok = v <= 31;
	RDParameters* p = resdet_alloc_default_parameters();
	VASSERT(p != NULL,"allocated");
	if(nd_choice(0,1)) {
		/* NULL parameters are refused, not dereferenced */
		VASSERT(resdet_parameters_set_range(NULL,r) == RDEPARAM && resdet_parameters_set_threshold(NULL,t.f) == RDEPARAM && resdet_parameters_set_compression_filter(NULL,v) == RDEPARAM,"NULL refused");
		return 0;
	}
	struct map before, after;
	bool def = nd_choice(0,1);
	if(!def) {
		VASSERT(resdet_parameters_set_range(p,R) == RDEOK && resdet_parameters_set_threshold(p,0.25f) == RDEOK && resdet_parameters_set_compression_filter(p,2) == RDEOK,"accepted");
	}
	results(p,&before);
	RDError e1 = resdet_parameters_set_range(p,r), e2 = resdet_parameters_set_threshold(p,t.f), e3 = resdet_parameters_set_compression_filter(p,v);
	VASSERT((e1 == RDEOK) == rok && (rok || e1 == RDEPARAM),"every range but zero is accepted");
	VASSERT((e2 == RDEOK) == tok && (tok || e2 == RDEPARAM),"thresholds from 0 to 1 are accepted, nothing else");
	VASSERT((e3 == RDEOK) == vok && (vok || e3 == RDEPARAM),"filter values from 0 to 31 are accepted, nothing else");
	if(!rok && !tok && !vok) {
		results(p,&after);
		an_same(&before,&after,W,"refused values change nothing");
		VWITNESS("all refused");
		return 0;
	}
	/* a fresh parameter set given the accepted values only, in another order, behaves the same */
	VASSUME(r <= 2);
	VASSUME(v <= 1 || v == 31 || v == 32 || v == 255);
	VASSUME(!tok || t.f == 0 || t.f == 0.5f);
	r = v_concretize(r);
	v = v_concretize(v);
	RDParameters* q = resdet_alloc_default_parameters();
	if(vok || !def) resdet_parameters_set_compression_filter(q,vok ? v : 2);
	if(tok || !def) resdet_parameters_set_threshold(q,tok ? t.f : 0.25f);
	if(rok || !def) resdet_parameters_set_range(q,rok ? r : R);
	results(p,&before);
	results(q,&after);
	an_same(&before,&after,W,"settings are independent of each other and of refused values");
	VWITNESS("compared");
	return 0;
}
