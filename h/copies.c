/* C18: an analysis copies its parameters; no parameters mean the defaults; no method means the default method; an unset
 * threshold means the method's own. */
#include "ref.h"
static coeff spec[N];
static void fill(coeff* f, size_t n) { memcpy(f,spec,sizeof spec); }
static float img[N];
static void go(RDAnalysis* a, struct map* mw) {
	VASSERT(a != NULL,"created");
	VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	an_results(a,W,H,mw,NULL);
	resdet_destroy_analysis(a);
}
int main(void) {
	vfft_fill = fill;
	for(int i = 0; i < N; i++) spec[i] = ((i*5)%7 < 3 ? -1 : 1)*(float)(1+(i*3)%5);
	for(int i = 0; i < NSYM; i++) { spec[i] = nd_f32(); VASSUME(an_finite(spec[i])); }
	struct map a, b;
	RDError e;
	int c = nd_choice(0,NSYM ? 4 : 5);
	RDMethod* m = resdet_get_method(ref_name[M]);
	VASSERT(m && !strcmp(m->name,ref_name[M]),"method found by name");
	if(c == 0) {                    /* copied: later changes and release of the parameters do not matter */
		RDParameters* p = an_params(R,0.25f,0),* q = an_params(R,0.25f,0);
		RDAnalysis* x = resdet_create_analysis(m,W,H,p,&e);
		resdet_parameters_set_range(p,R+1); resdet_parameters_set_threshold(p,1); resdet_parameters_set_compression_filter(p,1);
		memset(p,0xEE,v_symbolic() ? sizeof *p : sizeof *p);
		free(p);
		go(x,&a);
		go(resdet_create_analysis(m,W,H,q,NULL),&b);
		VWITNESS("copied");
	}
	else if(c == 1) {               /* NULL parameters are the defaults */
		RDParameters* p = resdet_alloc_default_parameters();
		go(resdet_create_analysis(m,W,H,NULL,&e),&a);
		go(resdet_create_analysis(m,W,H,p,NULL),&b);
		VWITNESS("defaults");
	}
	else if(c == 2) {               /* default range and per-method threshold, spelt out */
		RDParameters* p = an_params(resdet_default_range(),m->threshold,0);
		VASSERT(resdet_default_range() == DEFAULT_RANGE,"default range");
		go(resdet_create_analysis(m,W,H,NULL,&e),&a);
		go(resdet_create_analysis(m,W,H,p,NULL),&b);
		VWITNESS("spelt out");
	}
	else if(c == 3) {               /* no method: the default (first) one */
		RDParameters* p = an_params(R,-1,0);
		go(resdet_create_analysis(NULL,W,H,p,&e),&a);
		go(resdet_create_analysis(resdet_methods(),W,H,p,NULL),&b);
		VWITNESS("default method");
	}
	else if(c > 4) {               /* defaults do not remember the defaults of another method used before */
		RDParameters* p = an_params(resdet_default_range(),m->threshold,0);
		for(int i = 0, o = nd_choice(0,3); i < 2; i++, o = (o+1)%4) go(resdet_create_analysis(resdet_get_method(ref_name[o]),W,H,NULL,&e),&a);
		go(resdet_create_analysis(m,W,H,NULL,&e),&a);
		go(resdet_create_analysis(m,W,H,p,NULL),&b);
		VWITNESS("after others");
	}
	else {                          /* an unset threshold is the method's, also when other settings are made */
		RDParameters* p = an_params(R,-1,0),* q = an_params(R,m->threshold,0);
		go(resdet_create_analysis(m,W,H,p,&e),&a);
		go(resdet_create_analysis(m,W,H,q,NULL),&b);
		VWITNESS("method threshold");
	}
	an_same(&a,&b,W,"same results");
	return 0;
}
