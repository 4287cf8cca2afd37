/* C24: files that are cut short, unreadable past some point, or not valid: refused or ended with an error, and only
 * what is really in the file is ever delivered. */
#include "rd.h"
enum { PGM, PFM, Y4M };
enum { CUT, IOERR, BYTE, DIMS, VALUES, FREE };
static const char* const ext[] = { "pgm","pfm","y4m" };
static void header(const char* w, const char* h) {
	if(FMT == PGM) { ps("P5\n"); ps(w); pc(' '); ps(h); ps("\n255\n"); }
	else if(FMT == PFM) { ps("Pf\n"); ps(w); pc(' '); ps(h); ps("\n-1.0\n"); }
	else { ps("YUV4MPEG2 W"); ps(w); ps(" H"); ps(h); ps(" F25:1\n"); }
}
static RDImage* im; static float* buf; static size_t w, h; static RDError e; static bool seekable;
static void open_it(void) {
	w = h = 77; buf = (void*)&w; e = 99;
	if(MODE == IOERR) vf_io_error_at = v_concretize(vf_io_error_at);
	im = rd_open((struct how){ 1,seekable },ext[FMT],NULL,&w,&h,&buf,&e);
	VASSERT((im != NULL) == (e == RDEOK),"an image exactly when there is no error");
	if(!im) {
		VASSERT(w == 0 && h == 0 && buf == NULL,"a refused file leaves no size and no buffer");
		VASSERT(vm_live == 0 && vf_open_count == vf_close_count,"a refused file leaves nothing behind");
		VASSERT(e == RDEINVAL || e == RDETOOBIG || e == RDENOMEM,"refused as invalid, too big or for want of memory");
	}
	else {
		VASSERT(w && h && w <= SIZE_MAX/h/sizeof *buf,"an accepted file has a size that can be addressed");
		VASSERT(buf != NULL && vm_biggest >= w*h*sizeof *buf,"and a buffer for it");
	}
}
static void finish(void) {
	resdet_close_image(im); free(buf);
	VASSERT(vm_live == 0 && vf_open_count == vf_close_count,"nothing is left behind");
}
int main(void) {
	seekable = nd_choice(0,1);
	if(MODE == CUT || MODE == IOERR) {
		/* three frames of 2x1 (one for PGM): where each ends, and where its luma ends */
		size_t start, luma[3], end[3]; int n = FMT == PGM ? 1 : 3; uint8_t px[3][2]; float pf[3][2];
		header("2","1"); start = fn;
		if(FMT == PFM) start = fn;
		for(int k = 0; k < n; k++) {
			if(FMT == PFM) { if(k) header("2","1"); for(int i = 0; i < 2; i++) { pf[k][i] = nd_u8(); pbytes(&pf[k][i],4); } }
			else {
				if(FMT == Y4M) ps("FRAME\n");
				for(int i = 0; i < 2; i++) pc(px[k][i] = nd_u8());
			}
			luma[k] = fn;
			if(FMT == Y4M) { pc(1); pc(2); }
			end[k] = fn;
		}
		size_t cut = nd_choice(0,fn), total = fn;
		if(MODE == CUT) fn = cut; else vf_io_error_at = cut;
		open_it();
		VASSERT(!im || cut >= start,"a header cut short is refused");
		VASSERT(im || cut < start,"a complete header is accepted");
		if(!im) return 0;
		int k = 0;
		bool got = true;
		for(; k <= n; k++) {
			e = 99;
			got = resdet_read_image_frame(im,buf,&e);
			if(!got) break;
			VASSERT(k < n && cut >= luma[k],"only complete frames are delivered");
			VASSERT(e == RDEOK,"a delivered frame has no error");
			for(int i = 0; i < 2; i++) VASSERT(FMT == PFM ? fbits(buf[i]) == fbits(pf[k][i]) : near(buf[i],px[k][i]/255.,1e-6),"with the pixels of the file");
		}
		for(int i = 0; i < n; i++) VASSERT(k > i || cut < end[i],"every complete frame is delivered");
		/* where the delivered frames stop */
		bool boundary = MODE == CUT && cut == (k ? end[k-1] : start), inchroma = k && cut >= luma[k-1] && cut < end[k-1];
		if(FMT == PGM && k) boundary = true;
		if(FMT != Y4M && !k) boundary = false;
		if(!boundary && !inchroma) VASSERT(e != RDEOK,"data missing or unreadable is an error, not the end");
		if(boundary) VASSERT(e == RDEOK,"an end between frames is not an error");
		VCOVER(k == n,"all frames read"); VCOVER(k == 0,"no frame read");
		finish();
		return 0;
	}
	if(MODE == BYTE) {
		header("2","1"); size_t hdr = fn;
		if(FMT == Y4M) ps("FRAME\n");
		static const float v[2] = { 1,2 };
		if(FMT == PFM) pbytes(v,8); else ps("abcd");
		size_t at = nd_choice(LO,HI); VASSUME(at < hdr + (FMT == Y4M ? 6 : 0));
		uint8_t old = fb[at], b = nd_u8(); fb[at] = b;
		open_it();
		size_t magic = FMT == Y4M ? 10 : 1;
		if(at < magic) VASSERT(im == NULL || b == old,"a file without the signature of its format is refused");
		if(at == 1 && FMT == PGM) VASSERT(im == NULL || b == '5',"a file of another kind is refused");
		if(at == 1 && FMT == PFM) VASSERT(im == NULL || b == 'f' || b == 'F',"a file of another kind is refused");
		if(im) {
			for(int k = 0; k < 3; k++) if(!resdet_read_image_frame(im,buf,&e)) break; else VASSERT(e == RDEOK,"a delivered frame has no error");
			if(at >= hdr && at < hdr+5) VASSERT(e == RDEINVAL || b == old,"a frame without its marker is refused");
			finish();
		}
		return 0;
	}
	if(MODE == DIMS) {
		static const char* const d[] = { "0","1","4","65536","65537","4294967295","4294967296","4294967297","2147483648","4611686018427387905","9223372036854775809","18446744073709551615","18446744073709551616","-1","-4294967295","","x","0x2" };
		static const unsigned __int128 v[] = { 0,1,4,65536,65537,4294967295u,4294967296u,4294967297u,2147483648u,4611686018427387905u,9223372036854775809u,18446744073709551615u,0,0,0,0,0,0 };
		unsigned a = nd_choice(0,17), b = nd_choice(0,17);
		header(d[a],d[b]);
		if(FMT == Y4M) ps("FRAME\n");
		for(int i = 0; i < 12; i++) pc('a'+i);
		open_it();
		unsigned __int128 n = v[a]*v[b];
		if(v[a] && v[b]) {
			if(n > SIZE_MAX/4) VASSERT(im == NULL,"a size that cannot be addressed is refused");
			else if(im) VASSERT(w == v[a] && h == v[b],"the size is the one in the header");
			if(n <= 65536) VASSERT(im != NULL,"an ordinary size is accepted");
		}
		if(a == 0 || b == 0 || a == 15 || a == 16 || b == 16) VASSERT(im == NULL,"an empty or missing size is refused");
		if(im) {
			bool got = resdet_read_image_frame(im,buf,&e);
			VASSERT(!(got && n > 12),"a frame larger than the file is never delivered");
			VASSERT(got || e != RDEOK,"but refused with an error");
			finish();
		}
		return 0;
	}
	if(MODE == VALUES) {
		static const char* const pgm[] = { "P5 1 1 0\na","P5 1 1 256\naa","P5 1 1 65535\naa","P5 1 1 -1\na","P5 1 1 18446744073709551615\na","P5 1 1 4294967551\na","P5 1 1\n","P5 1 1 255","P5 1 1 255x","P5 1 1 x\na","P2 1 1 255\n1","P6 1 1 255\naaa","P7 1 1 255\n","p5 1 1 255\na","5 1 1 255\na","P5\n#","P5\n# x\n","","P","P5","P5 ","P5 1","P5 #x\n #y\n" };
		static const char* const pfm[] = { "Pf 1 1 \naaaa","Pf 1 1 -1","Pf 1 1 -1xaaaa","Pf 1 1 x\naaaa","P5 1 1 -1\naaaa","Pg 1 1 -1\naaaa","pf 1 1 -1\n","Pf 1\n-1\naaaa","Pf 1 1\n","Pf\n#","","P","Pf","PF\n" };
		static const char* const y4m[] = { "YUV4MPEG2 W1\nFRAME\naaa","YUV4MPEG2 H1\nFRAME\naaa","YUV4MPEG2 W1 H1","YUV4MPEG2 W1 H1 C999\nFRAME\naaa","YUV4MPEG2 W1 H1 C420p7\nFRAME\naaa","YUV4MPEG2 W1 H1 C420p17\nFRAME\naaaaaa","YUV4MPEG2 W1 H1 Cmono7\nFRAME\na","YUV4MPEG2 W1 H1 Cmono17\nFRAME\na",
			"YUV4MPEG2 W1 H1 C444p0\nFRAME\naaa","YUV4MPEG2 W1 H1 C\nFRAME\naaa","YUV4MPEG2 W1 H1 C420p32\nFRAME\naaa","YUV4MPEG2 Wx H1\nFRAME\naaa","YUV4MPEG2 W1 Hx\nFRAME\naaa","YUV4MPEG1 W1 H1\nFRAME\naaa","YUV4MPEG2W1 H1\nFRAME\naaa","","Y","YUV4MPEG2","YUV4MPEG2 ","YUV4MPEG2 \n","YUV4MPEG2 Cmono9999\nFRAME\na","YUV4MPEG2 W1 H1 Crgb\nFRAME\naaa","YUV4MPEG2 W1 H1 F25" };
		if(FMT == PGM) ps(pgm[nd_choice(0,sizeof pgm/sizeof *pgm-1)]);
		if(FMT == PFM) ps(pfm[nd_choice(0,sizeof pfm/sizeof *pfm-1)]);
		if(FMT == Y4M) ps(y4m[nd_choice(0,sizeof y4m/sizeof *y4m-1)]);
		open_it();
		VASSERT(im == NULL && e == RDEINVAL,"an invalid header is refused");
		VWITNESS("refused");
		return 0;
	}
	if(MODE == FREE) {
		/* any bytes whatever, after a prefix */
		static const char* const pre[3][4] = { { "","P5","P5 1 1 ","P5 1 1 25" },{ "","Pf","Pf 1 1 ","Pf 1 1 -1\naaaaP" },{ "","YUV4MPEG2 ","YUV4MPEG2 W1 H1 C","YUV4MPEG2 W1 H1\nFRAM" } };
		ps(pre[FMT][PRE]);
		int n = nd_choice(0,N);
		for(int i = 0; i < n; i++) pc(nd_u8());
		open_it();
		if(im) {
			for(int k = 0; k < 3; k++) if(!resdet_read_image_frame(im,buf,&e)) break; else VASSERT(e == RDEOK,"a delivered frame has no error");
			finish();
		}
		return 0;
	}
}
