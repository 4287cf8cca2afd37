/* C09: very many frames: the mean over all of them. */
#include "ref.h"
static unsigned fr; static coeff last[N];
static void fill(coeff* f, size_t n) {
	f[0] = 1; f[1] = 0; f[2] = fr%3 ? -1.f : 1.f;
	if(fr == NIMG-1 || fr == 0) { f[0] = nd_f32(); VASSUME(an_finite(f[0])); last[fr != 0] = f[0]; }
}
static float img[N];
int main(void) {
	vfft_fill = fill;
	RDAnalysis* a = an_create("sign",W,H,an_params(R,0,0));
	uint32_t k = 0;
	for(fr = 0; fr < NIMG; fr++) {
		VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
		if(fr && fr != NIMG-1) k += fr%3 != 0;
	}
	k += an_neg(last[0]);
	k += an_neg(last[1]) != ((NIMG-1)%3 != 0);
	struct map m;
	an_results(a,W,H,&m,NULL);
	VASSERT(m.has[1] && near(m.conf[1],k/(double)NIMG,1e-6),"the confidence of a sequence is the mean over its frames");
	VWITNESS("compared");
	return 0;
}
