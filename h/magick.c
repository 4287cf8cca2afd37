/* C36: files through MagickWand: a model of its image list, iterator, exceptions and pixel export. */
#include "ext.h"
#include <errno.h>
#include <stdio.h>
#include <wand/MagickWand.h>
#ifndef FR
#define FR 3
#endif
#ifndef LARGE
#define LARGE 0     /* one sample in LARGE free */
#endif
struct _MagickWand { int live; bool read, pending; size_t cur; };
static struct _MagickWand wand; static float I[FR][W*H]; static ExceptionType ex; static char msg[] = "it failed"; static bool msg_live; static int oserr;
static void live(const MagickWand* w) { VASSERT(w == &wand && w->live,"a live wand"); }
void MagickWandGenesis(void) { }
void MagickWandTerminus(void) { VASSERT(0,"the library may still be in use"); }
MagickWand* NewMagickWand(void) { VASSERT(!wand.live,"one wand"); wand = (struct _MagickWand){ 1 }; ext_live++; return &wand; }
MagickWand* DestroyMagickWand(MagickWand* w) { live(w); w->live = 0; ext_live--; return NULL; }
MagickBooleanType MagickReadImage(MagickWand* w, const char* name) {
	live(w);
	static const ExceptionType kinds[] = { BlobError,FileOpenError,ResourceLimitError,ResourceLimitFatalError,MissingDelegateError,CorruptImageError,CoderError,OptionError };
	if(FAIL && nd_choice(0,1)) {
		ext_faults++; ex = kinds[nd_choice(0,7)];
		if(ex == BlobError || ex == FileOpenError) errno = oserr = nd_choice(0,1) ? ENOENT : EACCES;
		return MagickFalse;
	}
	w->read = true; w->cur = ext_total-1;
	return MagickTrue;
}
char* MagickGetException(const MagickWand* w, ExceptionType* e) { live(w); *e = ex; msg_live = true; ext_live++; return msg; }
ExceptionType MagickGetExceptionType(const MagickWand* w) { live(w); return ex; }
void* MagickRelinquishMemory(void* p) { if(p) { VASSERT(p == msg && msg_live,"released once"); msg_live = false; ext_live--; } return NULL; }
void* RelinquishMagickMemory(void* p) { return MagickRelinquishMemory(p); }
size_t MagickGetImageWidth(MagickWand* w) { live(w); return w->read ? W : 0; }
size_t MagickGetImageHeight(MagickWand* w) { live(w); return w->read ? H : 0; }
size_t MagickGetNumberImages(MagickWand* w) { live(w); return ext_total; }
void MagickResetIterator(MagickWand* w) { live(w); w->cur = 0; w->pending = true; }
void MagickSetFirstIterator(MagickWand* w) { live(w); w->cur = 0; w->pending = false; }
ssize_t MagickGetIteratorIndex(MagickWand* w) { live(w); return w->cur; }
MagickBooleanType MagickSetIteratorIndex(MagickWand* w, const ssize_t i) { live(w); if(i < 0 || (size_t)i >= ext_total) return MagickFalse; w->cur = i; return MagickTrue; }
MagickBooleanType MagickHasNextImage(MagickWand* w) { live(w); return w->read && w->cur+1 < ext_total; }
MagickBooleanType MagickNextImage(MagickWand* w) {
	live(w);
	if(!w->read) return MagickFalse;
	if(w->pending) { w->pending = false; return MagickTrue; }
	if(w->cur+1 >= ext_total) { w->pending = true; return MagickFalse; }
	w->cur++; return MagickTrue;
}
MagickBooleanType MagickExportImagePixels(MagickWand* w, const ssize_t x, const ssize_t y, const size_t cols, const size_t rows, const char* map, const StorageType t, void* p) {
	live(w);
	VASSERT(w->read && !w->pending,"an image is current");
	if(ext_fails()) return MagickFalse;
	VASSERT(x == 0 && y == 0 && cols == W && rows == H,"the whole image");
	VASSERT(!strcmp(map,"I") && t == FloatPixel,"its intensity, as floats");
	memcpy(p,I[w->cur],sizeof I[0]);
	return MagickTrue;
}
static int ext_pixel(size_t f, size_t i, float v) { return fbits(v) == fbits(I[f][i]); }
int main(void) {
	ext_total = LARGE ? FR : nd_choice(1,FR);
	for(size_t f = 0; f < ext_total; f++) for(int i = 0; i < W*H; i++) I[f][i] = !LARGE || (f*W*H+i)%LARGE == LARGE/2 ? nd_f32() : f+i*.25f;
	bool exists = nd_choice(0,1);
	vf_file(exists ? "in.xyz" : "other",fb,0,true);
	vm_fail = FAIL; vm_fail_budget = FAIL;
	float* buf; RDError e;
	RDImage* im = ext_open(!LARGE && nd_choice(0,1) ? "-" : "in.xyz","MagickWand",&buf,&e);
	if(vm_failures || ext_faults) {
		VASSERT(!im,"a file that cannot be read is refused");
		if(vm_failures) VASSERT(e == RDENOMEM || e < 0,"lack of memory is reported as such");
		else if(ex == BlobError || ex == FileOpenError) VASSERT(e == -oserr,"system errors are passed on");
		else if(ex == ResourceLimitError || ex == ResourceLimitFatalError) VASSERT(e == RDENOMEM,"limits are lack of memory");
		VWITNESS("header fails");
	}
	else { VASSERT(im,"a valid file opens"); ext_run(im,buf); }
	ext_done(im,buf);
	return 0;
}
