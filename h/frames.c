/* C09: the results of a sequence are the average of the single-frame results, obtaining results is repeatable
 * and does not disturb the analysis. */
#include "ref.h"
static unsigned rep;
static void again(coeff* f, size_t n) { memcpy(f,an_coef[rep],sizeof an_coef[0]); }
int main(void) {
	RDParameters* p = an_params(R,0,0);
	RDAnalysis* a = an_create(ref_name[M],W,H,p);
	static float img[N];
	struct map mid, one[NIMG], all, all2;
	size_t length = DIM == 0 ? W : H;
#define RES(an,m) do { if(DIM == 0) an_results(an,W,H,m,NULL); else an_results(an,W,H,NULL,m); } while(0)
	for(int m = 0; m < NIMG; m++) {
		vfft_fill = an_fill;
		VASSERT(resdet_analyze_image(a,img) == RDEOK,"image analysed");
		if(m == 0) RES(a,&mid);
	}
	RES(a,&all);
	RES(a,&all2);
	an_same(&all,&all2,length,"results are repeatable");
	double sum[LMAX+1] = {0};
	for(rep = 0; rep < NIMG; rep++) {
		RDAnalysis* b = an_create(ref_name[M],W,H,p);
		vfft_fill = again;
		VASSERT(resdet_analyze_image(b,img) == RDEOK,"image analysed");
		RES(b,&one[rep]);
		resdet_destroy_analysis(b);
		if(rep == 0) an_same(&mid,&one[0],length,"preliminary results are those of the frames so far");
		for(size_t x = 1; x < length; x++) if(one[rep].has[x]) sum[x] += one[rep].conf[x];
	}
	for(size_t x = 1; x < length; x++) {
		VASSERT(all.has[x] == one[0].has[x],"the candidates do not depend on the number of frames");
		if(all.has[x]) {
			VASSERT(near(all.conf[x],sum[x]/NIMG,1e-6),"the confidence of a sequence is the mean over its frames");
			VCOVER(all.conf[x] > 0 && all.conf[x] < 1,"frames disagree");
		}
	}
	return 0;
}
