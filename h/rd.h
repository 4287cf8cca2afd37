/* shared by the image reading harnesses: build the file byte by byte, open it, read it */
#ifndef RD_H
#define RD_H
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "resdet.h"
#include "v.h"
#ifndef FBSIZE
#define FBSIZE 1024
#endif
static unsigned char fb[FBSIZE]; static size_t fn;
static inline void pc(int c) { fb[fn++] = c; }
static inline void ps(const char* s) { while(*s) pc(*s++); }
static inline void pn(size_t v) { char t[24]; int k = 0; do t[k++] = '0'+v%10; while(v /= 10); while(k) pc(t[--k]); }
static inline void pbytes(const void* d, size_t n) { const unsigned char* b = d; for(size_t i = 0; i < n; i++) pc(b[i]); }
static inline uint32_t fbits(float f) { union { float f; uint32_t u; } v = { f }; return v.u; }
#ifndef NEAR_DEFINED
#define NEAR_DEFINED
static inline int near(double x, double y, double tol) { double d = x-y; return (d <= tol) & (d >= -tol); }
#endif

/* how the file is reached: by name with the format's extension, by name with an explicit type or reader, or on
 * standard input; seekable or not */
struct how { int via; bool seekable; };
static inline struct how rd_how(void) { struct how h; h.via = nd_choice(0,3); h.seekable = nd_choice(0,1); return h; }
static inline RDImage* rd_open(struct how how, const char* ext, const char* reader, size_t* w, size_t* h, float** buf, RDError* e) {
	char name[16] = "dir.x/in.";
	if(how.via == 0) strcat(name,ext); else if(how.via == 3) strcpy(name,"-"); else strcat(name,"bin");
	vf_file(name,fb,fn,how.seekable);
	if(how.via == 2) return resdet_open_image_with_reader(name,reader,w,h,buf,e);
	return resdet_open_image(name,how.via == 0 ? NULL : ext,w,h,buf,e);
}
static inline void rd_done(struct how how, RDImage* im, float* buf) {
	resdet_close_image(im);
	free(buf);
	VASSERT(vm_live == 0,"closing releases everything");
	VASSERT(vf_stdin_closed == 0,"standard input is not closed");
	if(how.via != 3) VASSERT(vf_open_count == 1 && vf_close_count == 1,"the file is opened once and closed once");
}
#endif
