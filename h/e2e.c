/* C32: the command-line tool over the real library: what it prints and returns is what detection on the file gives. */
#include <stdio.h>
#include <setjmp.h>
#include "rd.h"
#include "ref.h"
int resdet_main(int argc, char** argv);
static jmp_buf out; static int code;
__attribute__((noreturn)) void v_exit(int c) { code = c; longjmp(out,1); }
static char* argv[16]; static int argc;
static void arg(const char* s) { argv[argc++] = (char*)s; }
static char want[512]; static size_t wn;
static void say(const char* s) { while(*s) want[wn++] = *s++; want[wn] = 0; }
static void num(size_t v) { char t[24]; int k = 0; do t[k++] = '0'+v%10; while(v /= 10); while(k) want[wn++] = t[--k]; want[wn] = 0; }
int main(void) {
	size_t frames = nd_choice(1,NIMG);
	for(size_t k = 0; k < frames; k++) {
		ps("Pf\n"); pn(W); pc(' '); pn(H); ps("\n-1\n");
		for(size_t i = 0; i < N; i++) { uint32_t u = (i+k)%FREEMOD ? (i%3 ? 0x40000000 : 0xC0400000+((i+k)%5 << 22)) : fbits((float)((int16_t)nd_u16()*8)); pbytes(&u,4); }
	}
	unsigned bad = nd_choice(0,2);
	if(bad == 1) fn -= 1;
	vf_file(bad == 2 ? "b.pfm" : "a.pfm",fb,fn,true);
	static const char* const ths[] = { NULL,"0","60" }; static const float thv[] = { -1,0,.6f };
	unsigned t = nd_choice(0,2), filter = nd_choice(0,1)*2;
	RDParameters* p = an_params(R,thv[t],filter);
	RDResolution* r[2] = { NULL,NULL }; size_t c[2] = { 0,0 };
	RDError e = resdetect_file("a.pfm",NULL,&r[0],&c[0],&r[1],&c[1],resdet_get_method(ref_name[M]),p);
	static const char rs[2] = { '0'+R };
	static const char* const vs[] = { "0","1","2" };
	unsigned v = nd_choice(0,2);
	arg("resdet"); arg("-v"); arg(vs[v]); arg("-m"); arg(ref_name[M]); arg("-r"); arg(rs); if(filter) { arg("-f"); arg("2"); } if(ths[t]) { arg("-x"); arg(ths[t]); } arg("a.pfm"); argv[argc] = NULL;
	v_reset_getopt(); vo_begin();
	int rc;
	if(!setjmp(out)) rc = resdet_main(argc,argv); else rc = code;
	vo_sync();
	if(e) { VASSERT(rc && vo_len == 0 && vo_err,"a failed detection is a failure"); VWITNESS("fails"); return 0; }
	VASSERT(v == 0 ? (rc == 0) == (c[0] > 1 || c[1] > 1) : rc == 0,"exit status");
	if(v == 1) { num(r[0][0].index); say(" "); num(r[1][0].index); say("\n"); }
	if(v == 2) for(int d = 0; d < 2; d++) { for(size_t i = 0; i < c[d]; i++) { num(r[d][i].index); say(" "); } say("\n"); }
	VASSERT(!strcmp(vo_buf,want),"prints the sizes detected");
	VCOVER(v == 2 && c[0] > 1,"upscaled");
	return 0;
}
