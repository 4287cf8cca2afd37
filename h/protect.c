/* replay of shared-state jobs: the library's static variables are made read-only before main */
#define _GNU_SOURCE
#include <signal.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
/* page-aligned, so that these sections begin on a page; linked last, so that the rest of their last page is unused */
#pragma clang section bss="vshared_b" data="vshared_d"
char vshared_pad_b[4096] __attribute__((aligned(4096)));
char vshared_pad_d[4096] __attribute__((aligned(4096))) = {1};
#pragma clang section bss="" data=""
extern char __start_vshared_b[], __start_vshared_d[];
static void hit(int s) {
	static const char m[] = "ASSERTION VIOLATED: a call writes a static variable of the library\n";
	(void)!write(2,m,sizeof m-1);
	_exit(42);
}
static void protect(char* from, char* to) { if(to > from) mprotect(from,to-from,PROT_READ); }
__attribute__((constructor(65535))) static void begin(void) {
	struct sigaction a; memset(&a,0,sizeof a); a.sa_handler = hit; sigaction(SIGSEGV,&a,NULL);
	protect(__start_vshared_b,vshared_pad_b); protect(__start_vshared_d,vshared_pad_d);
}
/* C library functions not safe to call from several threads */
char* strtok(char* s, const char* set) { hit(0); return NULL; }
char* setlocale(int category, const char* locale) { if(locale) hit(0); return "C"; }
