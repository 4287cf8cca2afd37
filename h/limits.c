/* C12: an analysis exists only for non-empty images within the configured pixel limit whose buffers are addressable;
 * anything else is refused with the right error before any undersized buffer is made. */
#include "ref.h"
#ifndef KISS
#define MAXDIM ((size_t)INT_MAX)
#else
#define MAXDIM ((size_t)INT_MAX/3)
#endif
static const size_t edge[] = { 0,1,2,3,256,65535,65536,INT_MAX,INT_MAX+1ul,1ul<<32,1ul<<61,1ul<<62,SIZE_MAX };
int main(void) {
	size_t a = edge[nd_choice(0,sizeof edge/sizeof *edge-1)], b = nd_u64();
	size_t w = SWAP ? b : a, h = SWAP ? a : b;
	VASSUME(a == 0 || b == 0 || b >= 64/a+1);     /* small images: checked exhaustively elsewhere */
	RDParameters* p = an_params(SIZE_MAX,0,0);
	vm_limit = 64*sizeof(coeff); 
	RDError e = 777;
	int big = 0, ok = 0;
	size_t base = vm_live;
	vm_biggest = 0;
	RDAnalysis* an = resdet_create_analysis(NULL,w,h,p,&e);
	VASSERT(an == NULL && (size_t)vm_live == base,"nothing is left behind by a refused analysis");
	if(!w || !h) { VASSERT(e == RDEINVAL,"an empty image is invalid"); VWITNESS("empty"); }
	else if(w > PIXEL_MAX/h) { VASSERT(e == RDETOOBIG,"more pixels than the limit: too big"); VWITNESS("over the pixel limit"); }
	else if(w > SIZE_MAX/sizeof(coeff)/h) { VASSERT(e == RDETOOBIG,"unaddressable: too big"); big = 1; }
	else {
		VASSERT(e == RDENOMEM || ((w > MAXDIM || h > MAXDIM) && e == RDETOOBIG),"a representable image fails only for want of memory");
		if(e == RDENOMEM) VASSERT(vm_biggest >= w*h*sizeof(coeff),"the buffer asked for covers every pixel");
		ok = 1;
	}
	VCOVER(big || PIXEL_MAX <= UINT32_MAX,"unaddressable");
	VCOVER(ok || PIXEL_MAX < 65,"within limits");
	return 0;
}
