/* C28: reading a file in one call gives the frames that reading it frame by frame gives. */
#include "rd.h"
enum { PGM, PFM, Y4M };
#define N (W*H)
int main(void) {
	size_t frames = FMT == PGM ? 1 : nd_choice(FMT == PFM,FR);
	if(FMT == Y4M) { ps("YUV4MPEG2 W"); pn(W); ps(" H"); pn(H); pc('\n'); }
	for(size_t k = 0; k < frames; k++) {
		if(FMT == PGM) { ps("P5 "); pn(W); pc(' '); pn(H); ps(" 255\n"); }
		if(FMT == PFM) { ps("Pf "); pn(W); pc(' '); pn(H); ps(" -1\n"); }
		if(FMT == Y4M) ps("FRAME\n");
		for(int i = 0; i < N; i++) if(FMT == PFM) { uint32_t u = nd_u32(); pbytes(&u,4); } else pc(nd_u8());
		if(FMT == Y4M) for(int i = 0; i < 2*((W+1)/2)*((H+1)/2); i++) pc(9);
	}
	static const char* const ext[] = { "pgm","pfm","y4m" };
	unsigned bad = nd_choice(0,3);        /* 1: cut short, 2: trailing bytes, 3: no such file */
	size_t cut = 0;
	if(bad == 1) { cut = nd_choice(1,FR*N < 9 ? 5 : 9); VASSUME(cut < fn); fn -= cut; }
	if(bad == 2) ps("PF");
	vf_file(bad == 3 ? "other" : "in",fb,fn,nd_choice(0,1));
	static float ref[(FR+1)*N]; size_t n = 0, w = 5, h = 5; float* buf; RDError e2;
	RDImage* im = resdet_open_image("in",ext[FMT],&w,&h,&buf,&e2);
	if(im) {
		while(n <= FR && resdet_read_image_frame(im,buf,&e2)) { memcpy(ref+n*N,buf,sizeof(float)*N); n++; }
		resdet_close_image(im); free(buf);
	}
	VASSERT(vm_live == 0,"nothing left");
	float* images = (void*)1; size_t nimages = 99, rw = 5, rh = 5;
	vm_fail = FAIL; vm_fail_budget = 1;
	RDError e = resdet_read_image("in",ext[FMT],&images,&nimages,&rw,&rh);
	if(vm_failures) {
		VASSERT(e == RDENOMEM || e == -EMFILE,"running out of memory is reported");
		VASSERT(images == NULL && nimages == 0,"no images on error");
		VASSERT(vm_live == 0,"nothing left behind");
		VWITNESS("out of memory");
		return 0;
	}
	if(e2) {
		VASSERT(e == e2,"the same error");
		VASSERT(images == NULL && nimages == 0,"no images on error");
		VWITNESS("error");
	}
	else {
		VASSERT(e == RDEOK,"no error");
		VASSERT(nimages == n,"the same number of frames");
		VASSERT(rw == w && rh == h && w == W && h == H,"the same size");
		VASSERT(images != NULL && v_writable(images,n*N*sizeof *images),"one buffer for every frame");
		for(size_t i = 0; i < n*N; i++) VASSERT(fbits(images[i]) == fbits(ref[i]),"the same pixels");
		VCOVER(n == (FMT == PGM ? 1 : FR),"every frame");
		free(images);
	}
	VASSERT(vm_live == 0 && vf_open_count == vf_close_count,"nothing left behind");
	return 0;
}
