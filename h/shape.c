/* C01: whatever the spectrum, the threshold and the number of images, a results list is sorted by descending
 * confidence, ends with the original size at confidence -1, and names distinct smaller sizes before it. */
#include "ref.h"
static void check(const RDResolution* r, size_t c, size_t length) {
	struct map m;
	an_map(r,c,length,&m);
	for(size_t i = 1; i < c; i++)
		VASSERT(r[i-1].confidence >= r[i].confidence,"descending confidence");
	VASSERT(r[c-1].index == length && r[c-1].confidence == -1,"the original is the final element");
	VASSERT(v_valid(r,c*sizeof(*r)),"the list holds count elements");
	VCOVER(c > 1,"a candidate is listed");
	VCOVER(c == 1,"only the original is listed");
}
int main(void) {
	float t = an_unit();
	RDParameters* p = an_params(R,nd_choice(0,1) ? t : -1,0);
	RDAnalysis* a = an_create(ref_name[M],W,H,p);
	free(p);
	vfft_fill = an_fill;
	static float img[N];
	for(int m = 0; m < NIMG; m++)
		VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
	RDResolution* r = NULL; size_t c = 77;
	if(DIM == 0) {
		VASSERT(resdet_analysis_results(a,&r,&c,NULL,NULL) == RDEOK,"results generated");
		check(r,c,W);
	} else {
		VASSERT(resdet_analysis_results(a,NULL,NULL,&r,&c) == RDEOK,"results generated");
		check(r,c,H);
	}
	free(r);
	resdet_destroy_analysis(a);
	VASSERT(vm_live == 0,"everything released");
	return 0;
}
