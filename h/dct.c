/* C30: the spectrum the methods are given is the two-dimensional DCT-II of the image, for every image.
 * With FFTW: one execution per image of a DCT-II plan of the image's size over a buffer holding exactly the image, whose output
 * is what is measured.  With KISS FFT: every coefficient is compared with that of the DCT-II, computed in double. */
#include "ref.h"
static const coeff* spectrum;
static RDError spy(const coeff* restrict f, size_t length, size_t n, size_t stride, size_t dist, size_t range, intermediate* restrict result, rdint_index* restrict start, rdint_index* restrict end) {
	VASSERT(!spectrum || spectrum == f,"one spectrum for both dimensions");
	spectrum = f;
	return RDEOK;
}
static float img[W*H];
#ifdef KISS
static double cw[W][W], ch[H][H], row[H][W];
#else
static coeff out[W*H]; static int filled;
static void fill(coeff* f, size_t n) {
	VASSERT(vfft_w == W && vfft_h == H && n == W*H,"transform of the image's size");
	filled++;
	for(int i = 0; i < W*H; i++) {
		VASSERT(f[i] == (coeff)img[i],"the transform is given the image");
		f[i] = out[i];
	}
}
#endif
int main(void) {
	RDetectFunc fn = spy;
	RDMethod m = { "spy",(void(*)(void))fn,0.5f };
	RDParameters* p = an_params(1,.5f,0);
	RDError e;
	RDAnalysis* a = resdet_create_analysis(&m,W,H,p,&e);
	free(p);
	VASSERT(a != NULL,"created");
#ifdef KISS
	double pi = atan(1)*4;
	for(int k = 0; k < W; k++) for(int i = 0; i < W; i++) cw[k][i] = 2*cos(pi*k*(2*i+1)/(2*W));
	for(int k = 0; k < H; k++) for(int i = 0; i < H; i++) ch[k][i] = 2*cos(pi*k*(2*i+1)/(2*H));
#else
	vfft_fill = fill;
#endif
	for(int t = 0; t < TIMES; t++) {
		spectrum = NULL;
#ifdef KISS
		for(int i = 0; i < W*H; i++) img[i] = nd_unit();
#else
		for(int i = 0; i < W*H; i++) { img[i] = nd_f32(); VASSUME(an_finite(img[i])); out[i] = nd_f32(); VASSUME(an_finite(out[i])); }
		filled = 0;
#endif
		static float given[W*H];
		for(int i = 0; i < W*H; i++) given[i] = img[i];
		VASSERT(resdet_analyze_image(a,given) == RDEOK,"image analysed");
		VASSERT(spectrum != NULL,"a spectrum is measured");
#ifdef KISS
		for(int y = 0; y < H; y++) for(int k = 0; k < W; k++) { row[y][k] = 0; for(int i = 0; i < W; i++) row[y][k] += cw[k][i]*img[y*W+i]; }
		for(int j = 0; j < H; j++) for(int k = 0; k < W; k++) {
			double s = 0;
			for(int y = 0; y < H; y++) s += ch[j][y]*row[y][k];
			double d = spectrum[j*W+k]-s, tol = 1e-5*W*H*4;
			VASSERT((d <= tol) & (d >= -tol),"each coefficient is that of the DCT-II of the image");
		}
#else
		VASSERT(filled == 1,"each image is transformed once");
		for(int i = 0; i < W*H; i++) VASSERT(spectrum[i] == out[i],"the output of the transform is what is measured");
#endif
	}
	resdet_destroy_analysis(a);
	VASSERT(vm_live == 0,"everything released");
	VWITNESS("transformed");
	return 0;
}
