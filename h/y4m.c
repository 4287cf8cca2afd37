/* C22: yuv4mpeg: the luma plane of every frame, value/(2^depth-1), whatever the chroma layout, tags and frame parameters. */
#include "rd.h"
#ifndef FR
#define FR 2
#endif
struct csp { const char* tag; unsigned depth; int kind; };      /* kind: chroma layout */
static const struct csp csps[] = {
	{ NULL,8,420 },{ "420",8,420 },{ "420jpeg",8,420 },{ "420mpeg2",8,420 },{ "420paldv",8,420 },{ "411",8,411 },{ "422",8,422 },{ "444",8,444 },{ "444alpha",8,445 },{ "mono",8,0 },
	{ "420p10",10,420 },{ "422p9",9,422 },{ "444p12",12,444 },{ "420p14",14,420 },{ "444p16",16,444 },{ "mono9",9,0 },{ "mono10",10,0 },{ "mono12",12,0 },{ "mono16",16,0 },{ "411p10",10,411 },{ "422p16",16,422 },
};
static size_t up(size_t a, size_t b) { return (a+b-1)/b; }
int main(void) {
	size_t W = nd_choice(MINW,MAXW), H = nd_choice(MINH,MAXH);
	struct csp c = csps[VAR || HOW ? (nd_choice(0,1) ? 0 : 13) : nd_choice(0,sizeof csps/sizeof *csps-1)];
	size_t chroma = c.kind == 420 ? 2*up(W,2)*up(H,2) : c.kind == 411 ? 2*up(W,4)*H : c.kind == 422 ? 2*up(W,2)*H : c.kind == 444 ? 2*W*H : c.kind == 445 ? 3*W*H : 0;
	size_t bytes = c.depth > 8 ? 2 : 1;
	int order = VAR ? nd_choice(0,3) : 0, frames = nd_choice(FR > 1 ? 0 : 1,FR);
	ps("YUV4MPEG2 ");
	if(order == 0) { ps("W"); pn(W); ps(" H"); pn(H); ps(" F25:1 Ip A1:1"); if(c.tag) { ps(" C"); ps(c.tag); } }
	else if(order == 1) { if(c.tag) { ps("C"); ps(c.tag); pc(' '); } ps("H"); pn(H); ps(" W"); pn(W); }
	else if(order == 2) { ps("F30000:1001 W"); pn(W); ps(" XYSCSS=420JPEG H"); pn(H); ps(" It"); if(c.tag) { ps(" C"); ps(c.tag); } ps(" XCOLORRANGE=LIMITED"); }
	else { ps("A0:0 XWHC H"); pn(H); if(c.tag) { ps(" C"); ps(c.tag); } ps(" W"); pn(W); }
	pc('\n');
	uint16_t px[FR][16];
	for(int k = 0; k < frames; k++) {
		ps("FRAME"); if(VAR && nd_choice(0,1)) ps(" Ixyz XW3 "); pc('\n');
		for(size_t i = 0; i < W*H; i++) {
			px[k][i] = bytes == 2 ? nd_u16() : nd_u8();
			pc(px[k][i]); if(bytes == 2) pc(px[k][i] >> 8);
		}
		for(size_t i = 0; i < chroma*bytes; i++) pc("FRAME\n"[i%6]);
	}
	struct how how = HOW ? rd_how() : (struct how){ 0,nd_choice(0,1) };
	size_t w = 77, h = 77; float* buf = NULL; RDError e = 99;
	RDImage* im = rd_open(how,"y4m","y4M",&w,&h,&buf,&e);
	VASSERT(im != NULL && e == RDEOK,"a valid stream opens");
	VASSERT(w == W && h == H,"dimensions as in the header");
	VASSERT(buf != NULL && v_writable(buf,w*h*sizeof *buf),"an image buffer of width*height samples");
	for(int k = 0; k < frames; k++) {
		e = 99;
		VASSERT(resdet_read_image_frame(im,buf,&e) && e == RDEOK,"each frame is read");
		for(size_t i = 0; i < W*H; i++) {
			VASSUME(px[k][i] < 1u << c.depth);
			VASSERT((fbits(buf[i]) == fbits(px[k][i]/(float)((1u << c.depth)-1))) | near(buf[i],px[k][i]/(double)((1u << c.depth)-1),1e-6),"luma scaled by the depth, in order");
		}
	}
	e = 99;
	VASSERT(!resdet_read_image_frame(im,buf,&e) && e == RDEOK,"then the sequence ends without an error");
	VCOVER(frames == FR && buf[0] == 1,"full white in the last frame");
	VCOVER(frames == 0 || FR == 1,"no frames");
	rd_done(how,im,buf);
	return 0;
}
