/* C16: the documented semantics on one instance: with width 16 and value 2, results at multiples of 16/4 go. */
#include "ref.h"
static void fill(coeff* f, size_t n) { for(size_t i = 0; i < n; i++) f[i] = i%3 ? 1.f : -1.f; }
int main(void) {
	vfft_fill = fill;
	RDAnalysis* a = an_create("sign",16,1,an_params(1,0,2));
	static float img[16]; struct map m;
	VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	an_results(a,16,1,&m,NULL);
	bool doc = true;
	for(size_t x = 1; x < 15; x++) doc &= m.has[x] == (x%4 != 0);
	VASSERT(doc,"width 16, range 1, filter 2: exactly the results at multiples of 4 are removed");
	return 0;
}
