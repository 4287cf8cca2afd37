/* C10: an image with a NaN or infinite pixel is rejected as invalid and leaves the analysis as it was; a finite
 * image reaches the transform unchanged; the caller's pixels are never modified. */
#include "ref.h"
static float img[N]; static unsigned calls;
static int fin(float v) { union { float f; uint32_t u; } b = { v }; return (b.u >> 23 & 255) != 255; }
static void seen(coeff* f, size_t n) {
	calls++;
	for(size_t i = 0; i < N; i++) {
		union { float f; uint32_t u; } a, b; a.f = f[i]; b.f = img[i];
		VASSERT(a.u == b.u,"the transform receives the image's samples");
		f[i] = (i*7)%3 ? 1.f : -1.f;
	}
}
int main(void) {
	RDAnalysis* a = an_create("sign",W,H,an_params(R,0,0));
	vfft_fill = seen;
	struct map b0, b1;
	bool before = nd_choice(0,1);
	if(before) { for(int i = 0; i < N; i++) img[i] = i; VASSERT(resdet_analyze_image(a,img) == RDEOK,"finite image analysed"); an_results(a,W,H,&b0,NULL); }
	uint32_t copy[N]; int ok = 1;
#ifdef ONE
	int at = nd_choice(0,N-1);
#endif
	for(int i = 0; i < N; i++) { union { float f; uint32_t u; } b;
#ifdef ONE
		if(i != at) b.f = i%7-3; else
#endif
		b.u = nd_u32(); copy[i] = b.u; memcpy(&img[i],&b.u,4); ok &= fin(img[i]); }
	RDError e = resdet_analyze_image(a,img);
	for(int i = 0; i < N; i++) VASSERT(!memcmp(&img[i],&copy[i],4),"the caller's image is not modified");
	VASSERT((e == RDEOK) == ok,"accepted exactly when every sample is finite");
	if(!ok) {
		VASSERT(e == RDEINVAL,"a non-finite sample makes an invalid image");
		RDResolution* r = (void*)1; size_t c = 9;
		e = resdet_analysis_results(a,&r,&c,NULL,NULL);
		if(!before) VASSERT(e == RDENOIMG && r == NULL && c == 0,"a rejected image is not counted");
		else { VASSERT(e == RDEOK,"results"); an_map(r,c,W,&b1); an_same(&b0,&b1,W,"a rejected image leaves the results as they were"); }
		VWITNESS("rejected");
	}
	else VWITNESS("accepted");
	return 0;
}
