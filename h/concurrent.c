/* C46: calls on separate analyses may share methods, parameters and images: none of these is ever written, and neither is any
 * static variable of the library (the executor, and read-only pages in the replay, see to that). */
#include "ref.h"
static coeff spec[2][N]; static unsigned cur;
static void fill(coeff* f, size_t n) { memcpy(f,spec[cur%2],sizeof spec[0]); }
static float img[NIMG*N];
int main(void) {
	for(int i = 0; i < 2*N; i++) spec[i/N][i%N] = (i*23+1)%FREEMOD ? ((i*5)%7 < 3 ? -1 : 1)*(coeff)(8*(1+(i*3)%5)) : (coeff)((int16_t)nd_u16()*8);
	for(int i = 0; i < NIMG*N; i++) img[i] = i*0.5f;
#ifndef KISS
	vfft_fill = fill;
#endif
	int set = nd_choice(0,3);
	RDParameters* own = set ? an_params(R,set > 1 ? 0.25f : -1,set > 2) : NULL;
	/* its size is not public: what malloc was asked for */
	RDParameters* p = own ? v_readonly(own,vm_biggest) : NULL;
	float* im = v_readonly(img,sizeof img);
	RDMethod* m = nd_choice(0,1) ? resdet_get_method(ref_name[M]) : NULL;
	for(int k = 0; k < 2; k++) {
		RDError e;
		RDAnalysis* a = resdet_create_analysis(m,W,H,p,&e);
		VASSERT(a != NULL,"created");
		for(cur = 0; cur < NIMG; cur++) VASSERT(resdet_analyze_image(a,im+cur*N) == RDEOK,"analysed");
		an_results(a,W,H,&(struct map){0},&(struct map){0});
		an_results(a,W,H,&(struct map){0},NULL);
		resdet_destroy_analysis(a);
		RDResolution* rw,* rh; size_t cw, ch;
		VASSERT(resdetect(im,NIMG,W,H,&rw,&cw,&rh,&ch,m,p) == RDEOK,"detected");
		free(rw); free(rh);
	}
	VASSERT(resdet_analyze_image(NULL,im) != RDEOK,"refused");
	VASSERT(resdet_get_method("none") == NULL && resdet_error_str(RDENOIMG) && resdet_libversion() && resdet_list_image_readers() && resdet_default_range(),"names and texts");
	for(RDMethod* q = resdet_methods(); q->name; q++) ;
	VWITNESS("done");
	return 0;
}
