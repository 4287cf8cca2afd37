/* shared by the harnesses of the readers that go through another library: the library is replaced by a model of its
 * documented behaviour with symbolic samples, and any of its calls (and any allocation) may fail */
#ifndef EXT_H
#define EXT_H
#include "rd.h"
#ifndef W
#define W 2
#define H 2
#endif
#ifndef STEPS
#define STEPS 1
#endif
static long ext_live;                   /* objects of the library not yet released */
static unsigned ext_faults, ext_soft;   /* failures of library calls; failures the reader may tolerate */
static bool ext_fails(void) { if(!v_injected_failure()) return false; ext_faults++; return true; }
static size_t ext_total;                /* frames in the file */
static int ext_pixel(size_t frame, size_t i, float v);   /* is v the value of pixel i of that frame? */
static int ext_tag; static uint64_t ext_seen, ext_wrong;
static void ext_progress(void* ctx, uint64_t n) { if(ctx != &ext_tag || n != ++ext_seen) ext_wrong++; }
/* what a failed call must report: memory or anything else */
static void ext_error(RDError e) {
	VASSERT(e != RDEOK,"a failure is reported");
	VASSERT(vm_failures == ext_faults || e == RDENOMEM || e == -EMFILE,"lack of memory is reported as such");
}
static RDImage* ext_open(const char* file, const char* reader, float** buf, RDError* e) {
	size_t w = 7, h = 7; *e = 99; *buf = NULL;
	RDImage* im = resdet_open_image_with_reader(file,reader,&w,&h,buf,e);
	VASSERT((im != NULL) == (*e == RDEOK),"an image exactly when there is no error");
	if(im) VASSERT(w == W && h == H,"the size of the image");
	else VASSERT(w == 0 && h == 0 && *buf == NULL,"nothing is left of a failure to open");
	return im;
}
static void ext_done(RDImage* im, float* buf) {
	resdet_close_image(im); free(buf);
	VASSERT(ext_live == 0 && vm_live == 0,"everything is released, once");
	VASSERT(vf_stdin_closed == 0 && vf_open_count == vf_close_count,"every file opened is closed, standard input is not");
}
/* read and seek at will, until the end or a failure */
static void ext_run(RDImage* im, float* buf) {
	size_t pos = 0; RDError e;
	for(int step = 0; step < STEPS; step++) {
		bool seek = step+1 < STEPS && nd_choice(0,1);
		unsigned before = vm_failures, soft = ext_soft;
		e = 99;
		if(seek) {
			uint64_t off = nd_u64(); bool cb = nd_choice(0,1);
			ext_seen = ext_wrong = 0;
			bool ok = resdet_seek_frame(im,off,cb ? ext_progress : NULL,&ext_tag,&e);
			if(vm_failures > before) { VASSERT(!ok,"a failure while seeking is not success"); ext_error(e); VWITNESS("seek fails"); return; }
			VASSERT(ok == (off <= ext_total-pos),"seeking succeeds exactly when enough frames are left");
			VASSERT(e == RDEOK,"passing the end is not an error");
			uint64_t passed = v_concretize(off <= ext_total-pos ? off : ext_total-pos);
			VASSERT(ext_wrong == 0 && ext_seen == (cb ? passed : 0),"progress counts the frames passed, in order");
			pos += passed;
		}
		else {
			bool got = resdet_read_image_frame(im,buf,&e);
			if(ext_soft > soft) return;
			if(vm_failures > before) { VASSERT(!got,"a frame is delivered whole or not at all"); ext_error(e); VWITNESS("read fails"); return; }
			VASSERT(e == RDEOK && got == (pos < ext_total),"every frame is delivered, then the end without an error");
			if(!got) { VWITNESS("end"); continue; }
			for(size_t i = 0; i < W*H; i++) VASSERT(ext_pixel(pos,i,buf[i]),"the decoded samples, in place");
			pos++;
		}
	}
	VWITNESS("reads");
}
#endif
