/* FFTW stand-in: records plan arguments; execute replaces the whole buffer with whatever vfft_fill
 * produces (arbitrary coefficients), so the methods are decided for every spectrum. */
#include <stdlib.h>
#include <fftw3.h>
#include "fftw.h"
coeff* vfft_buf; size_t vfft_n; int vfft_w, vfft_h; unsigned vfft_execs, vfft_plans, vfft_destroyed;
int vfft_plan_may_fail;
void (*vfft_fill)(coeff* f, size_t n);
static struct plan { coeff* buf; int w, h, live; } plans[8];
static void* owned[8];

static void* get(size_t n) {
	void* p = malloc(n);
	if(p) { for(int i = 0; i < 8; i++) if(!owned[i]) { owned[i] = p; break; } }
	return p;
}
static void put(void* p) {
	if(!p) return;
	int mine = 0;
	for(int i = 0; i < 8; i++) if(owned[i] == p) { owned[i] = NULL; mine = 1; }
	VASSERT(mine,"coefficient buffer released by the allocator that made it");
	free(p);
}
#ifdef VCOEFF_DOUBLE
#define P(x) fftw_##x
#else
#define P(x) fftwf_##x
#endif
coeff* P(alloc_real)(size_t n) { return n > SIZE_MAX/sizeof(coeff) ? NULL : get(n*sizeof(coeff)); }
void* P(malloc)(size_t n) { return get(n); }
void P(free)(void* p) { put(p); }
P(plan) P(plan_r2r_2d)(int n0, int n1, coeff* in, coeff* out, fftw_r2r_kind k0, fftw_r2r_kind k1, unsigned flags) {
	VASSERT(n0 > 0 && n1 > 0,"DCT plan has positive dimensions");
	VASSERT(k0 == FFTW_REDFT10 && k1 == FFTW_REDFT10,"DCT-II in both dimensions");
	VASSERT(in != NULL && out != NULL,"DCT plan has buffers");
	VASSERT(v_valid(in,(size_t)n0*n1*sizeof(coeff)) && v_valid(out,(size_t)n0*n1*sizeof(coeff)),"DCT buffers hold width*height samples");
	if(!(flags & FFTW_ESTIMATE)) for(size_t i = 0; i < (size_t)n0*n1; i++) in[i] = out[i] = -12345; /* measuring a plan overwrites its buffers */
	if(vfft_plan_may_fail && v_injected_failure()) return NULL;
	vfft_buf = out; vfft_w = n1; vfft_h = n0; vfft_n = (size_t)n0*n1; vfft_plans++;
	vm_live++;
	for(int i = 0; i < 8; i++) if(!plans[i].live) { plans[i] = (struct plan){ out,n1,n0,1 }; return (P(plan))&plans[i]; }
	VASSERT(0,"model: too many plans");
	return NULL;
}
P(plan) P(plan_r2r)(int rank, const int* n, coeff* in, coeff* out, const fftw_r2r_kind* k, unsigned flags) {
	VASSERT(rank == 2,"two-dimensional DCT");
	return P(plan_r2r_2d)(n[0],n[1],in,out,k[0],k[1],flags);
}
void P(execute)(const P(plan) p_) {
	struct plan* p = (struct plan*)p_;
	VASSERT(p >= plans && p < plans+8 && p->live,"DCT executed on a live plan");
	vfft_execs++; vfft_buf = p->buf; vfft_w = p->w; vfft_h = p->h; vfft_n = (size_t)p->w*p->h;
	if(vfft_fill) vfft_fill(p->buf,vfft_n);
}
void P(execute_r2r)(const P(plan) p_, coeff* in, coeff* out) {
	struct plan* p = (struct plan*)p_;
	VASSERT(p >= plans && p < plans+8 && p->live,"DCT executed on a live plan");
	vfft_execs++; vfft_buf = out;
	if(vfft_fill) vfft_fill(out,vfft_n);
}
void P(destroy_plan)(P(plan) p_) {
	struct plan* p = (struct plan*)p_;
	if(!p) return;
	VASSERT(p >= plans && p < plans+8 && p->live,"plan destroyed once");
	p->live = 0;
	vfft_destroyed++;
	vm_live--;
}
void P(cleanup)(void) {}
