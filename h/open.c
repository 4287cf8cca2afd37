/* C25: opening, reading and closing images: every argument error, missing file, unsupported type and failed
 * allocation is reported with defined outputs, and nothing leaks. */
#include "rd.h"
int main(void) {
	static const char* const ext[] = { "pgm","pfm","y4m" },* const reader[] = { "PGM","PFM","Y4M" };
	static const char* const text[] = { "P5 2 1 255\nab","Pf 2 1 -1\nabcdabcd","YUV4MPEG2 W2 H1\nFRAME\nabcc" };
	unsigned fmt = nd_choice(0,2), invalid = nd_bool();
	ps(invalid ? "Q5 2 1 255\nab" : text[fmt]);
	static char name[16] = "in."; strcat(name,ext[fmt]);
	bool missing = nd_bool();
	vf_file(missing ? "other" : name,fb,fn,nd_bool());
	vm_fail = FAIL; vm_fail_budget = 2;
	size_t w = 77, h = 77; float junk,* buf = &junk; RDError e = 99;
	bool hn = nd_bool(), hw = nd_bool(), hh = nd_bool(), hb = nd_bool(), he = nd_bool();
	unsigned type = nd_choice(0,3);
	bool by = nd_bool();
	RDImage* im;
	if(by) im = resdet_open_image_with_reader(hn ? name : NULL,type == 0 ? NULL : type == 1 ? "nonesuch" : reader[fmt],hw ? &w : NULL,hh ? &h : NULL,hb ? &buf : NULL,he ? &e : NULL);
	else im = resdet_open_image(hn ? name : NULL,type == 0 ? NULL : type == 1 ? "zzz" : type == 2 ? ext[fmt] : "a/b",hw ? &w : NULL,hh ? &h : NULL,hb ? &buf : NULL,he ? &e : NULL);
	bool unsupp = by ? type == 1 : type == 1 || type == 3;
	RDError want = RDEOK;
	if(!hn || !hw || !hh || (by && type == 0)) want = RDEPARAM;
	else if(vm_failures) want = -1;
	else if(unsupp) want = RDEUNSUPP;
	else if(missing) want = -ENOENT;
	else if(invalid) want = RDEINVAL;
	VASSERT((im != NULL) == (want == RDEOK),"opens exactly when it should");
	if(he) VASSERT(want == -1 ? e == RDENOMEM || e == -EMFILE || (e == RDEUNSUPP && unsupp) : e == want,"the error says why");
	if(!im) {
		if(hw) VASSERT(w == 0,"no width"); if(hh) VASSERT(h == 0,"no height"); if(hb) VASSERT(buf == NULL,"no buffer");
		VASSERT(vm_live == 0 && vf_open_count == vf_close_count,"nothing left behind");
		VWITNESS("refused");
		resdet_close_image(NULL);
		e = 99;
		VASSERT(!resdet_read_image_frame(NULL,&junk,he ? &e : NULL) && (!he || e == RDEPARAM),"no image to read");
		e = 99;
		VASSERT(!resdet_seek_frame(NULL,nd_bool(),NULL,NULL,he ? &e : NULL) && (!he || e == RDEPARAM),"no image to seek in");
		return 0;
	}
	VASSERT(w == 2 && h == 1,"the size");
	float own[2];
	if(hb) VASSERT(buf && buf != &junk && v_writable(buf,2*sizeof *buf),"a buffer for one frame");
	else VASSERT(buf == &junk,"no buffer unless asked for");
	e = 99;
	VASSERT(!resdet_read_image_frame(im,NULL,he ? &e : NULL) && (!he || e == RDEPARAM),"nowhere to read to");
	e = 99;
	VASSERT(resdet_read_image_frame(im,nd_bool() && hb ? buf : own,he ? &e : NULL) && (!he || e == RDEOK),"reads");
	e = 99;
	VASSERT(!resdet_read_image_frame(im,own,he ? &e : NULL) && (!he || e == RDEOK),"ends");
	resdet_close_image(im);
	if(hb) free(buf);
	VASSERT(vm_live == 0 && vf_open_count == 1 && vf_close_count == 1,"everything released");
	VWITNESS("read");
	return 0;
}
