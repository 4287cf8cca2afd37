/* C27: JPEG files through libjpeg: a model of its decoder (colour conversion, errors through the error manager). */
#ifndef LARGE
#define LARGE 0
#endif
#define SPARSE 20011
#include "ext.h"
#include <stdio.h>
#include <setjmp.h>
#include <jpeglib.h>
static struct jpeg_decompress_struct* D; static bool created, src, header, started; static FILE* file;
static int space, batch; static uint8_t Y[W*H];
static void die(j_common_ptr c) { c->err->error_exit(c); VASSERT(0,"an error handler does not return"); }
static void step(j_decompress_ptr c) {
	VASSERT(c == D && created,"a live decoder");
	if(nd_choice(0,WARN)) c->err->emit_message((j_common_ptr)c,-1);
	if(ext_fails()) die((j_common_ptr)c);
}
struct jpeg_error_mgr* jpeg_std_error(struct jpeg_error_mgr* e) { VASSERT(0,"the standard error manager ends the program"); return e; }
void jpeg_CreateDecompress(j_decompress_ptr c, int version, size_t size) {
	VASSERT(version == JPEG_LIB_VERSION && size == sizeof *c && !created,"one decoder of the right version");
	struct jpeg_error_mgr* err = c->err; void* data = c->client_data;
	c->mem = NULL;
	if(ext_fails()) die((j_common_ptr)c);
	memset(c,0,sizeof *c);
	c->err = err; c->client_data = data; c->mem = (void*)1;
	D = c; created = true; ext_live++;
}
void jpeg_destroy_decompress(j_decompress_ptr c) { if(!created) return; VASSERT(c == D,"the decoder created"); created = false; c->mem = NULL; ext_live--; }
void jpeg_destroy(j_common_ptr c) { jpeg_destroy_decompress((j_decompress_ptr)c); }
void jpeg_abort_decompress(j_decompress_ptr c) { }
void jpeg_stdio_src(j_decompress_ptr c, FILE* f) { step(c); src = true; file = f; }
int jpeg_read_header(j_decompress_ptr c, boolean require) {
	VASSERT(src && file && vf_tell() == 0,"reading starts at the beginning of the file");
	c->err->reset_error_mgr((j_common_ptr)c);
	step(c); header = true;
	c->image_width = W; c->image_height = H; c->jpeg_color_space = space; c->out_color_space = space == JCS_GRAYSCALE ? JCS_GRAYSCALE : JCS_RGB;
	c->num_components = space == JCS_GRAYSCALE ? 1 : 3; c->scale_num = c->scale_denom = 8;
	return JPEG_HEADER_OK;
}
boolean jpeg_start_decompress(j_decompress_ptr c) {
	VASSERT(header,"after the header");
	step(c); started = true;
	c->output_width = W; c->output_height = H; c->out_color_components = c->output_components = c->out_color_space == JCS_GRAYSCALE ? 1 : 3;
	c->rec_outbuf_height = batch; c->output_scanline = 0;
	return TRUE;
}
JDIMENSION jpeg_read_scanlines(j_decompress_ptr c, JSAMPARRAY rows, JDIMENSION n) {
	VASSERT(started,"after the start");
	if(c->output_scanline >= c->output_height) { c->err->emit_message((j_common_ptr)c,-1); return 0; }
	step(c);
	JDIMENSION left = c->output_height-c->output_scanline, max = n < left ? n : left, lim = max < (JDIMENSION)batch ? max : batch, k = LARGE ? lim : nd_choice(1,lim);
	for(JDIMENSION i = 0; i < k; i++, c->output_scanline++)
		for(int x = 0; x < W; x++)
			if(c->out_color_space == JCS_GRAYSCALE) rows[i][x] = Y[c->output_scanline*W+x];
			else for(int q = 0; q < 3; q++) rows[i][x*3+q] = 3*x+q;
	return k;
}
boolean jpeg_finish_decompress(j_decompress_ptr c) { if(ext_fails()) { ext_soft++; die((j_common_ptr)c); } return TRUE; }
static int ext_pixel(size_t frame, size_t i, float v) { return near(v,Y[i]/255.,1e-6); }
int main(void) {
	space = nd_choice(0,1) ? JCS_YCbCr : JCS_GRAYSCALE; batch = nd_choice(0,2); batch = batch == 2 ? 4 : batch+1;
	for(int i = 0; i < W*H; i++) Y[i] = !LARGE && (W < 50 || i%37 == 5) || i%SPARSE == 5 ? nd_u8() : i*7 & 255;
	bool missing = FAIL && nd_choice(0,1), in = !LARGE && nd_choice(0,1);
	ps("\xff\xd8\xff");
	vf_file(missing ? "other" : in ? "-" : "in.jpg",fb,fn,true);
	ext_total = 1;
	vm_fail = FAIL; vm_fail_budget = FAIL && !missing;
	float* buf; RDError e;
	RDImage* im = ext_open(in && !missing ? "-" : "in.jpg","libjpeg",&buf,&e);
	if(missing) VASSERT(!im && e == -ENOENT,"a missing file is refused with the system's error");
	else if(vm_failures) { VASSERT(!im,"a file whose header cannot be read is refused"); ext_error(e); VWITNESS("header fails"); }
	else { VASSERT(im,"a valid file opens"); ext_run(im,buf); }
	ext_done(im,buf);
	return 0;
}
