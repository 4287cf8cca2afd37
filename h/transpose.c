/* C08: analysing the transposed image swaps the width and height results. */
#include "ref.h"
static void transposed(coeff* f, size_t n) {
	for(size_t y = 0; y < H; y++) for(size_t x = 0; x < W; x++) f[x*H+y] = an_coef[0][y*W+x];
}
int main(void) {
	RDParameters* p = an_params(R,0,0);
	RDAnalysis* a = an_create(ref_name[M],W,H,p),* b = an_create(ref_name[M],H,W,p);
	static float img[N];
	vfft_fill = an_fill;
	VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	vfft_fill = transposed;
	VASSERT(resdet_analyze_image(b,img) == RDEOK,"image analysed");
	struct map m1, m2;
	if(DIM == 0) { an_results(a,W,H,&m1,NULL); an_results(b,H,W,NULL,&m2); an_same(&m1,&m2,W,"widths of the image are heights of its transpose"); }
	else { an_results(a,W,H,NULL,&m1); an_results(b,H,W,&m2,NULL); an_same(&m1,&m2,H,"heights of the image are widths of its transpose"); }
	VWITNESS("compared");
	VCOVER(m1.n > 1 && m1.conf[(DIM ? H : W)/2] > 0,"a positive confidence");
	return 0;
}
