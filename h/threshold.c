/* C03: a candidate is listed exactly when its confidence reaches the threshold, with that confidence; the
 * configurations keep confidences exactly representable, so equality is decided too.  T<0: the method's default. */
#include "ref.h"
int main(void) {
	float t = an_unit();
	float used = t;
#ifdef DEFAULT_T
	used = resdet_get_method(ref_name[M])->threshold;
	t = -1;
#endif
	RDAnalysis* a = an_create(ref_name[M],W,H,an_params(R,t,0)),* all = an_create(ref_name[M],W,H,an_params(R,0,0));
	static float img[N];
	static coeff first[NIMG][N];
	vfft_fill = an_fill;
	extern void again(coeff*,size_t);
	for(int m = 0; m < NIMG; m++)
		VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	vfft_fill = again;
	for(int m = 0; m < NIMG; m++)
		VASSERT(resdet_analyze_image(all,img) == RDEOK,"image analysed");
	struct map ma, mall;
	size_t length = DIM == 0 ? W : H;
	if(DIM == 0) { an_results(a,W,H,&ma,NULL); an_results(all,W,H,&mall,NULL); }
	else { an_results(a,W,H,NULL,&ma); an_results(all,W,H,NULL,&mall); }
	for(size_t x = 1; x < length; x++) {
		VASSERT(ma.has[x] == (mall.has[x] && mall.conf[x] >= used),"listed exactly when the confidence reaches the threshold");
		if(ma.has[x]) {
			VASSERT(ma.conf[x] == mall.conf[x],"same confidence whatever the threshold");
			VWITNESS("listed");
		}
		else if(mall.has[x]) VWITNESS("withheld");
		if(mall.has[x]) VCOVER(mall.conf[x] == used || length == 0
#ifdef DEFAULT_T
			|| 1
#endif
			,"confidence equal to the threshold");
	}
	return 0;
}
static unsigned rep;
void again(coeff* f, size_t n) { memcpy(f,an_coef[rep++],sizeof an_coef[0]); }
