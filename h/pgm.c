/* C20: every 8-bit binary graymap decodes to sample/maxval, row by row, as one frame. */
#include "rd.h"
int main(void) {
	/* MODE 0: header layouts; 1: sizes and ways of opening; 2: every maximum value */
	size_t W = MODE == 1 ? nd_choice(1,3) : MODE == 0 ? 2 : 1, H = MODE == 1 ? nd_choice(1,3) : 1;
	unsigned maxval = MODE == 2 ? nd_choice(1,255) : MODE == 1 ? (nd_choice(0,1) ? 255 : 7) : 100;
	static const char* const sep[] = { " ","\n","\t","\r\n"," \n ","\v\f" };
	const char* s1 = sep[MODE == 0 ? nd_choice(0,5) : 0],* s2 = sep[MODE == 0 ? nd_choice(0,5) : 0];
	unsigned comment = MODE == 0 ? nd_choice(0,3) : 0;
	ps("P5");
	if(comment) ps("\n"); else ps(s1);
	if(comment & 1) ps("# 9 9 255\n");
	if(comment & 2) ps("#\n#P5 #\n");
	pn(W); ps(s2); pn(H); ps(s1); pn(maxval);
	static const char last[] = " \n\t\r";
	pc(last[MODE == 0 ? nd_choice(0,3) : 1]);
	unsigned char px[9];
	for(size_t i = 0; i < W*H; i++) { px[i] = nd_u8(); pc(px[i]); }
	if(MODE == 1 && nd_choice(0,1)) ps("P5 trailing");
	struct how how = { 0,true };
	if(MODE == 1) how = rd_how();
	size_t w = 77, h = 77; float* buf = NULL; RDError e = 99;
	RDImage* im = rd_open(how,"pgm","pgm",&w,&h,&buf,&e);
	VASSERT(im != NULL && e == RDEOK,"a valid graymap opens");
	VASSERT(w == W && h == H,"dimensions as in the header");
	VASSERT(buf != NULL && v_writable(buf,w*h*sizeof *buf),"an image buffer of width*height samples");
	e = 99;
	VASSERT(resdet_read_image_frame(im,buf,&e) && e == RDEOK,"the frame is read");
	for(size_t i = 0; i < W*H; i++) {
		VASSUME(px[i] <= maxval);
		VASSERT((fbits(buf[i]) == fbits(px[i]/(float)maxval)) | near(buf[i],px[i]/(double)maxval,1e-7),"each sample is its value over the maximum, in order");
	}
	e = 99;
	VASSERT(!resdet_read_image_frame(im,buf,&e) && e == RDEOK,"a graymap is a single frame");
	VASSERT(!resdet_read_image_frame(im,buf,NULL),"and stays at the end");
	VCOVER(buf[0] == 1,"full white"); VCOVER(buf[0] == 0,"black");
	rd_done(how,im,buf);
	VWITNESS("read");
	return 0;
}
