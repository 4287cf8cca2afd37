/* C29: the one-call interfaces give what the step-by-step ones give (the stand-in transform leaves the pixels as
 * they are, so every spectrum is reached through the image). */
#include "rd.h"
#include "ref.h"
static void same(RDError e, RDError e2, RDResolution* a, size_t ca, RDResolution* b, size_t cb) {
	VASSERT(e == e2,"the same error");
	VASSERT(ca == cb,"the same number of sizes");
	VASSERT((a == NULL) == (b == NULL),"lists in the same cases");
	for(size_t i = 0; i < ca; i++) VASSERT((a[i].index == b[i].index) & (a[i].confidence == b[i].confidence),"the same list");
}
/* a free pixel: any bit pattern; for orig (which sums) any multiple of 8 up to 2^18, or not a number */
static uint32_t anypixel(void) {
#ifdef INTCOEF
	if(nd_choice(0,1)) return 0x7FC00000 | nd_u8();
	return fbits((float)((int16_t)nd_u16()*8));
#else
	return nd_u32();
#endif
}
#ifdef INFILE
static RDError step(RDMethod* m, RDParameters* p, RDResolution** rw, size_t* cw, RDResolution** rh, size_t* ch) {
	RDError e; size_t w, h; float* buf;
	RDImage* im = resdet_open_image("a.pfm",NULL,&w,&h,&buf,&e);
	if(!im) return e;
	RDAnalysis* a = resdet_create_analysis(m,w,h,p,&e);
	if(a) {
		while(resdet_read_image_frame(im,buf,&e)) if((e = resdet_analyze_image(a,buf))) break;
		if(!e) e = resdet_analysis_results(a,rw,cw,rh,ch);
	}
	resdet_destroy_analysis(a); resdet_close_image(im); free(buf);
	return e;
}
#else
static RDError step(RDMethod* m, RDParameters* p, const float* img, size_t n, RDResolution** rw, size_t* cw, RDResolution** rh, size_t* ch) {
	RDError e;
	RDAnalysis* a = resdet_create_analysis(m,W,H,p,&e);
	if(!a) return e;
	for(size_t i = 0; i < n; i++) { float t[N]; memcpy(t,img+i*N,sizeof t); if((e = resdet_analyze_image(a,t))) break; }
	if(!e) e = resdet_analysis_results(a,rw,cw,rh,ch);
	resdet_destroy_analysis(a);
	return e;
}
#endif
int main(void) {
	RDResolution* rw = (void*)1,* rh = (void*)1,* sw = NULL,* sh = NULL; size_t cw = 9, ch = 9, dw = 0, dh = 0;
	unsigned which = nd_choice(0,3);
	RDMethod* m = nd_choice(0,1) ? resdet_get_method(ref_name[M]) : M == SIGN ? NULL : resdet_get_method(ref_name[M]);
	RDParameters* p = nd_choice(0,1) ? an_params(R,TH,0) : NULL;
	long base = vm_live;
	RDError e, e2;
	#define OW (which & 1 ? &rw : NULL),(which & 1 ? &cw : NULL)
	#define OH (which & 2 ? &rh : NULL),(which & 2 ? &ch : NULL)
	#define SW (which & 1 ? &sw : NULL),(which & 1 ? &dw : NULL)
	#define SH (which & 2 ? &sh : NULL),(which & 2 ? &dh : NULL)
#ifdef INFILE
	size_t frames = nd_choice(1,NIMG);
	for(size_t k = 0; k < frames; k++) {
		ps("Pf\n"); pn(W); pc(' '); pn(H); ps("\n-1\n");
		for(size_t i = 0; i < N; i++) { uint32_t u = (i+k)%FREEMOD ? (i%3 ? 0x40000000 : 0xC0400000+((i+k)%5 << 22)) : anypixel(); pbytes(&u,4); }
	}
	unsigned bad = nd_choice(0,3);
	if(bad == 1) fn -= 1;
	if(bad == 2) ps("P");
	vf_file(bad == 3 ? "b.pfm" : "a.pfm",fb,fn,nd_choice(0,1));
	e2 = step(m,p,SW,SH);
	e = resdetect_file("a.pfm",NULL,OW,OH,m,p);
	VCOVER(e == RDEOK && frames == NIMG,"detects"); VCOVER(e == RDEINVAL,"fails while reading"); VCOVER(e == -ENOENT,"fails to open");
	VASSERT(vf_open_count == vf_close_count,"the file is closed");
#else
	static float img[NIMG*N];
	for(size_t i = 0; i < NIMG*N; i++) { union { uint32_t u; float f; } b = { i%FREEMOD ? (i%3 ? 0x40000000 : 0xC0400000+(i%5 << 22)) : anypixel() }; img[i] = b.f; }
	size_t n = nd_choice(1,NIMG);
	e2 = step(m,p,img,n,SW,SH);
	static float copy[NIMG*N]; memcpy(copy,img,sizeof img);
	e = resdetect(img,n,W,H,OW,OH,m,p);
	VASSERT(!memcmp(copy,img,sizeof img),"the images are not modified");
	VCOVER(e == RDEOK,"detects"); VCOVER(e == RDEINVAL,"fails while reading"); 
#endif
	if(which & 1) same(e,e2,rw,cw,sw,dw); else VASSERT(rw == (void*)1 && cw == 9,"nothing written that was not asked for");
	if(which & 2) same(e,e2,rh,ch,sh,dh); else VASSERT(rh == (void*)1 && ch == 9,"nothing written that was not asked for");
	VASSERT(e == e2,"the same error");
	if(which & 1) { free(rw); free(sw); }
	if(which & 2) { free(rh); free(sh); }
	VASSERT(vm_live == base,"nothing but the lists is left allocated");
	return 0;
}
