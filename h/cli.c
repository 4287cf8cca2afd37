/* C32-C34: the command-line tool over a library whose every outcome is chosen freely. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <setjmp.h>
#include <math.h>
#include "resdet.h"
#include "v.h"
enum { OUTCOME, FRAMES, OPTIONS };
#ifndef MANY
#define MANY 0          /* sizes in a long list */
#endif
#define TIER(i) (MANY ? (i)*3/MANY : (i))      /* which of the confidences an entry has */
int resdet_main(int argc, char** argv);
static jmp_buf out; static int code;
__attribute__((noreturn)) void v_exit(int c) { code = c; longjmp(out,1); }

/* ---- the library ---- */
struct RDParameters { size_t range; float threshold; unsigned filter; int sets; };
struct RDImage { int open; }; struct RDAnalysis { int live; };
static struct RDImage the_image; static struct RDAnalysis the_analysis;
static RDError open_err, seek_err, create_err, analyze_err, results_err, read_err;
static size_t img_w, img_h, nw, nh, avail, read_fail_at, analyze_fail_at;     /* frames available; frame whose reading or analysis fails */
#define LISTMAX (MANY > 4 ? MANY : 4)
static RDResolution lw[LISTMAX], lh[LISTMAX];
/* what the tool did */
static int opens, closes, creates, destroys, seeks, results, progressed;
static uint64_t seek_to; static size_t pos, analyzed; static const char* name, *type, *reader; static RDMethod* method;
static bool have_params; static struct RDParameters given; static float* buffer; static bool frame_ok = true;
static RDMethod meths[] = { { .name = "sign", .threshold = .5f },{ .name = "mag", .threshold = .25f },{ 0 } };
static const char* const readers[] = { "PGM","libxyz",NULL };

const char* resdet_libversion(void) { return "9.9"; }
const char* resdet_error_str(RDError e) { return e ? "it failed" : ""; }
enum RDErrors resdet_get_max_error(void) { return RDENOIMG; }
RDMethod* resdet_methods(void) { return meths; }
RDMethod* resdet_get_method(const char* n) {
	if(!n) return meths;
	for(RDMethod* m = meths; m->name; m++) if(!strcmp(m->name,n)) return m;
	return NULL;
}
size_t resdet_default_range(void) { return 12; }
RDParameters* resdet_alloc_default_parameters(void) { struct RDParameters* p = malloc(sizeof *p); if(p) *p = (struct RDParameters){ 12,-1,0,0 }; return p; }
RDError resdet_parameters_set_range(RDParameters* p, size_t r) { if(!p || !r) return RDEPARAM; p->range = r; p->sets |= 1; return RDEOK; }
RDError resdet_parameters_set_threshold(RDParameters* p, float t) { if(!p || !(t >= 0 && t <= 1)) return RDEPARAM; p->threshold = t; p->sets |= 2; return RDEOK; }
RDError resdet_parameters_set_compression_filter(RDParameters* p, uint8_t f) { if(!p || f > 31) return RDEPARAM; p->filter = f; p->sets |= 4; return RDEOK; }
static RDImage* opened(const char* n, size_t* w, size_t* h, float** buf, RDError* e) {
	opens++; name = n;
	if(buf) *buf = NULL;
	if(open_err) { *w = *h = 0; if(e) *e = open_err; return NULL; }
	*w = img_w; *h = img_h;
	if(buf) buffer = *buf = malloc(sizeof **buf);
	the_image.open = 1;
	if(e) *e = RDEOK;
	return &the_image;
}
RDImage* resdet_open_image(const char* n, const char* t, size_t* w, size_t* h, float** buf, RDError* e) { type = t; return opened(n,w,h,buf,e); }
RDImage* resdet_open_image_with_reader(const char* n, const char* r, size_t* w, size_t* h, float** buf, RDError* e) { reader = r; return opened(n,w,h,buf,e); }
bool resdet_read_image_frame(RDImage* im, float* b, RDError* e) {
	VASSERT(im == &the_image && im->open && b == buffer,"frames are read from the open image into its buffer");
	RDError r = RDEOK; bool ok = false;
	if(pos == read_fail_at) r = read_err;
	else if(pos < avail) { pos++; ok = true; }
	if(e) *e = r;
	return ok;
}
bool resdet_seek_frame(RDImage* im, uint64_t off, void(*progress)(void*,uint64_t), void* ctx, RDError* e) {
	VASSERT(im == &the_image && im->open,"seeking in the open image");
	VASSERT(pos == 0 && analyzed == 0,"seeking comes first");
	seeks++; seek_to = off;
	if(progress) { progressed++; progress(ctx,1); }
	if(e) *e = seek_err;
	if(seek_err || off > avail) { pos = avail; return false; }
	pos = v_concretize(off);
	return true;
}
void resdet_close_image(RDImage* im) { if(!im) return; VASSERT(im == &the_image && im->open,"closed once"); im->open = 0; closes++; }
RDAnalysis* resdet_create_analysis(RDMethod* m, size_t w, size_t h, const RDParameters* p, RDError* e) {
	creates++; method = m;
	VASSERT(w == img_w && h == img_h,"the analysis has the size of the image");
	if(p) { have_params = true; given = *p; }
	if(e) *e = create_err;
	if(create_err) return NULL;
	the_analysis.live = 1;
	return &the_analysis;
}
RDError resdet_analyze_image(RDAnalysis* a, float* b) {
	VASSERT(a == &the_analysis && a->live && b == buffer,"each frame read is analysed");
	if(analyzed == analyze_fail_at) return analyze_err;
	analyzed++;
	if(pos != seek_to+analyzed) frame_ok = false;
	return RDEOK;
}
RDError resdet_analysis_results(RDAnalysis* a, RDResolution** restrict rw, size_t* restrict cw, RDResolution** restrict rh, size_t* restrict ch) {
	VASSERT(a == &the_analysis && a->live,"results of the analysis");
	results++;
	if(rw) *rw = NULL; if(cw) *cw = 0; if(rh) *rh = NULL; if(ch) *ch = 0;
	if(!analyzed) return RDENOIMG;
	if(results_err) return results_err;
	if(rw) { *rw = malloc(nw*sizeof **rw); memcpy(*rw,lw,nw*sizeof **rw); *cw = nw; }
	if(rh) { *rh = malloc(nh*sizeof **rh); memcpy(*rh,lh,nh*sizeof **rh); *ch = nh; }
	return RDEOK;
}
void resdet_destroy_analysis(RDAnalysis* a) { if(!a) return; VASSERT(a == &the_analysis && a->live,"destroyed once"); a->live = 0; destroys++; }
const char* const* resdet_list_image_readers(void) { return readers; }

/* ---- running the tool ---- */
static char* argv[16]; static int argc;
static void arg(const char* s) { argv[argc++] = (char*)s; }
static int run(void) {
	argv[argc] = NULL;
	v_reset_getopt();
	vo_begin();
	int rc;
	if(!setjmp(out)) rc = resdet_main(argc,argv); else rc = code;
	vo_sync();
	return rc & 255;
}
static char want[512+MANY*20]; static size_t wn;
static void say(const char* s) { while(*s) want[wn++] = *s++; want[wn] = 0; }
static void num(size_t v) { char t[24]; int k = 0; do t[k++] = '0'+v%10; while(v /= 10); while(k) want[wn++] = t[--k]; want[wn] = 0; }
static const char* at;
/* the next word of the output is s */
static void word(const char* s) { while(*at == ' ') at++; size_t n = strlen(s); VASSERT(!strncmp(at,s,n) && (at[n] == ' ' || at[n] == '\n' || at[n] == 0 || s[n-1] == '('),"the table lists the sizes with their confidence"); at += n; }
static void size(size_t v) { wn = 0; want[0] = 0; num(v); word(want); }
static int lines_ok(void) { return vo_len == 0 || vo_buf[vo_len-1] == '\n'; }
static void start(void) {
	arg("resdet");
	open_err = seek_err = create_err = analyze_err = results_err = read_err = RDEOK;
	img_w = 6; img_h = 4; avail = 1; read_fail_at = analyze_fail_at = -1;
	nw = nh = 1; lw[0] = (RDResolution){ 6,-1 }; lh[0] = (RDResolution){ 4,-1 };
}
static RDError anyerror(void) { RDError e = nd_i32(); VASSUME(e != RDEOK && e != INT32_MIN); return e; }

static void outcome(void) {
	static const float conf[] = { 1,.75f,.5f,0 }; static const char* const f6[] = { "1.000000","0.750000","0.500000","0.000000" },* const pct[] = { "(100.00%)","(75.00%)","(50.00%)","( 0.00%)" };
#define HTIER(i) (MANY ? TIER(i)+c0 : (i)+2*c0)
	static const char* const vs[] = { NULL,"-1","0","1","2","3" };
	unsigned v = nd_choice(0,5), fail = MANY ? 0 : nd_choice(0,7);
	img_w = MANY ? 6000 : nd_choice(0,1) ? 640 : 31; img_h = MANY ? 10000 : 480;
	if(MANY) { bool tall = nd_choice(0,1); size_t other = nd_choice(1,2); nw = tall ? other : MANY; nh = tall ? MANY : other; }
	else { nw = nd_choice(1,3); nh = nd_choice(1,3); }
	unsigned c0 = nd_choice(0,1);
	for(size_t i = 0; i+1 < nw; i++) lw[i] = (RDResolution){ MANY ? 5000-7*i : 30-7*i,conf[TIER(i)+c0] };
	lw[nw-1] = (RDResolution){ img_w,-1 };
	for(size_t i = 0; i+1 < nh; i++) lh[i] = (RDResolution){ MANY ? 9000-11*i : 240-9*i,conf[HTIER(i)] };
	lh[nh-1] = (RDResolution){ img_h,-1 };
	avail = 2;
	if(fail == 1) open_err = anyerror();
	if(fail == 2) create_err = anyerror();
	if(fail == 3) { read_fail_at = nd_choice(0,2); read_err = anyerror(); }
	if(fail == 4) { analyze_fail_at = nd_choice(0,1); analyze_err = anyerror(); }
	if(fail == 5) results_err = anyerror();
	if(fail == 6) avail = 0;
	bool seek = fail == 7;
	if(seek) { seek_err = nd_choice(0,1) ? anyerror() : RDEOK; if(!seek_err) avail = 0; }
	if(vs[v]) { arg("-v"); arg(vs[v]); }
	if(seek) { arg("-o"); arg("1"); }
	if(!MANY && nd_choice(0,1)) arg("-p");
	arg("some.pgm");
	int rc = run();
	VASSERT(opens == 1 && !strcmp(name,"some.pgm"),"the named file is opened");
	if(fail) {
		VASSERT(rc != 0,"a failure gives a failing exit status");
		VASSERT(vo_len == 0,"and no results");
		VASSERT(vo_err > 0,"and says why");
		VWITNESS("failure");
		return;
	}
	VASSERT(the_image.open == 0 && the_analysis.live == 0 && vm_live == 0,"everything released");
	bool up = !(nw == 1 && nh == 1);
	VASSERT(v == 2 ? (rc == 0) == up : rc == 0,"exit status");
	at = vo_buf; wn = 0; want[0] = 0;
	if(v == 2) { VASSERT(vo_len == 0,"-v0 prints nothing"); VCOVER(up,"upscaled"); VCOVER(!up,"not upscaled"); return; }
	VASSERT(lines_ok(),"the output ends with a line");
	if(v == 3) { num(lw[0].index); say(" "); num(lh[0].index); say("\n"); VASSERT(!strcmp(vo_buf,want),"-v1 prints the best guess"); return; }
	if(v == 4 || v == 5) {
		for(int d = 0; d < 2; d++) {
			RDResolution* l = d ? lh : lw; size_t n = d ? nh : nw;
			for(size_t i = 0; i < n; i++) {
				num(l[i].index);
				if(v == 5) { say(":"); say(i+1 == n ? "-1.000000" : f6[d ? HTIER(i) : TIER(i)+c0]); }
				say(" ");
			}
			say("\n");
		}
		VASSERT(!strcmp(vo_buf,want),"-v2 and -v3 print every size in order, the original last");
		VWITNESS("lists");
		return;
	}
	say("given: "); num(img_w); say("x"); num(img_h); say("\nbest guess: "); num(lw[0].index); say("x"); num(lh[0].index); if(!up) say(" (not upsampled)"); say("\n");
	VASSERT(!strncmp(vo_buf,want,wn),"the given size and the best guess");
	at = vo_buf+wn;
	if(!up) { VASSERT(*at == 0,"nothing more"); return; }
	while(*at && *at != '\n') at++;
	VASSERT(*at == '\n',"a heading"); at++;
	for(size_t i = 0; i < (nw > nh ? nw : nh)-1; i++) {
		if(i+1 < nw) { size(lw[i].index); word(pct[TIER(i)+c0][1] == ' ' ? "(" : pct[TIER(i)+c0]); if(pct[TIER(i)+c0][1] == ' ') word("0.00%)"); }
		if(i+1 < nh) { size(lh[i].index); word(pct[HTIER(i)][1] == ' ' ? "(" : pct[HTIER(i)]); if(pct[HTIER(i)][1] == ' ') word("0.00%)"); }
		while(*at == ' ') at++;
		VASSERT(*at == '\n',"one line each"); at++;
	}
	VASSERT(*at == 0,"and no more");
	VWITNESS("table");
}

/* a number given as up to three arbitrary digits */
static char digits[3][24];
static uint64_t number(int k) {
	unsigned n = nd_choice(1,DIGITS+2); uint64_t v = 0;
	if(n > DIGITS) { strcpy(digits[k],n == DIGITS+1 ? "4294967297" : "18446744073709551615"); return n == DIGITS+1 ? 4294967297u : UINT64_MAX; }
	for(unsigned i = 0; i < n; i++) { uint8_t d = nd_u8(); VASSUME(d <= 9); digits[k][i] = '0'+d; v = v*10+d; }
	return v;
}
static void frames(void) {
	avail = nd_choice(0,4);
	bool o = nd_choice(0,1), n = nd_choice(0,1), p = nd_choice(0,1);
	uint64_t off = 0, lim = 0;
	if(p) arg("-p");
	if(n) { lim = number(0); arg("-n"); arg(digits[0]); }
	if(o) { off = number(1); arg("-o"); arg(digits[1]); }
	unsigned v = nd_choice(0,1); arg("-v"); arg(v ? "0" : "1");
	nw = 2; lw[0] = (RDResolution){ 3,1 }; lw[1] = (RDResolution){ 6,-1 };
	arg("in");
	int rc = run();
	if(n && lim == 0) { VASSERT(rc && !opens,"a limit of no frames is refused"); VWITNESS("refused"); return; }
	VASSERT(opens == 1 && (seeks == 0 || seeks == 1),"opened once, at most one seek");
	VASSERT((seeks == 1) == (off != 0) && seek_to == off,"the offset is passed on");
	VASSERT(progressed == (p && seeks),"progress only when asked for");
	if(off >= avail) { VASSERT(rc && vo_len == 0 && vo_err > 0 && analyzed == 0,"no frame left is a failure"); VWITNESS("none left"); return; }
	uint64_t left = avail-off;
	VASSERT(analyzed == (n && lim < left ? lim : left),"the frames from the offset up to the limit are analysed");
	VASSERT(frame_ok,"each once, in order");
	VASSERT(results == 1 && rc == 0,"then the results");
	VASSERT(v ? vo_len == 0 : !strcmp(vo_buf,"3 4\n"),"and only those are printed");
	VASSERT(p || vo_err == 0,"nothing on the error stream");
	VCOVER(analyzed < left,"limited");
}

static char longname[640];
static void options(void) {
	enum { METHOD = 1, TYPE = 2, READER = 4, RANGE = 8, THRESHOLD = 16, FILTER = 32 };
	static const char* const files[] = { "in","in.JPG","x.jpeg","x.mp4","x.mkv","x.webp","x.WebM","x.avif","x.heic","x.png","jpg","a.jpg.png","x.jpegs","x.webmjpg",longname };
	static const unsigned autos[] = { 0,3,3,3,3,2,2,5,5,0,0,0,0,0,3 };
	for(int i = 0; i < 600; i++) longname[i] = i%150 == 149 ? '/' : i%37 == 20 ? '.' : "webppng"[i%7];
	strcpy(longname+600,".jpg");
	unsigned kind = nd_choice(0,9), file = 0; bool bad = false, wantlist = false;
	const char* m = NULL,* t = NULL,* r = NULL; size_t range = 12; double thr = -1; unsigned filter = 0;
	for(unsigned second = kind > 6 ? 7 : nd_choice(kind+1,7), k_ = 0, cur = kind; k_ < (second < 7 ? 2 : 1); k_++, cur = second)
	if(!(kind == 5 && second == 6)) switch(cur) {
		case 0: { static const char* const ms[] = { "sign","mag","nope","","SIGN" }; unsigned k = nd_choice(0,4); arg("-m"); arg(ms[k]); m = ms[k]; bad |= k > 1; break; }
		case 1: arg("-t"); arg(t = nd_choice(0,1) ? "png" : "image/png"); break;
		case 2: { static const char* const rs[] = { "PGM","libXYZ","pgm","none","list","LIST" }; unsigned k = nd_choice(0,5); arg("-R"); arg(rs[k]); if(k < 3) r = rs[k]; else if(k == 4) wantlist = true; else bad = true; if(r && t) bad = true; break; }
		case 3: { range = number(0); arg("-r"); arg(digits[0]); bad |= range == 0; break; }
		case 4: { static const char* const ts[] = { "0","50","100","12.5","101","-1","x","","0.001","nan","1e1" }; static const double tv[] = { 0,.5,1,.125,-1,-1,-1,-1,.00001,-1,.1 }; unsigned k = nd_choice(0,10); arg("-x"); arg(ts[k]); thr = tv[k]; bad |= thr < 0; break; }
		case 5: { size_t f = number(1); filter = f; arg("-f"); arg(digits[1]); bad |= f > 31; break; }
		case 6: { file = nd_choice(0,14); filter = autos[file]; arg("-f"); arg("auto"); break; }
		case 7: { static const char* const xs[][2] = { { "-o","x" },{ "-o","" },{ "-n","x" },{ "-r","x" },{ "-r","" },{ "-f","x" },{ "-f","" },{ "-q",NULL },{ "-f","287" },{ "-f","-1" },{ "-f","18446744073709551616" } }; unsigned k = nd_choice(0,10); arg(xs[k][0]); if(xs[k][1]) arg(xs[k][1]); bad = true; break; }
		case 8: { unsigned k = nd_choice(0,2); if(k == 1) { arg("-v"); arg("0"); } bad = k == 2; if(k == 2) { int rc = run(); VASSERT(rc && !opens && vo_err,"no input is a usage error"); return; } break; }
		case 9: { unsigned k = nd_choice(0,1); arg(k ? "-h" : "-V"); if(nd_choice(0,1)) arg("in"); int rc = run(); VASSERT(rc == 0 && !opens && vo_len,"help and version are printed"); VASSERT(!k ? strstr(vo_buf,"PGM, libxyz") != NULL && strstr(vo_buf,"9.9") != NULL : strstr(vo_buf,"sign ") != NULL && strstr(vo_buf,"mag ") != NULL && strstr(vo_buf,"25%") != NULL,"with the methods, versions and readers"); return; }
	}
	arg(files[file]);
	int rc = run();
	if(wantlist) { VASSERT(rc == 0 && !opens && !strcmp(vo_buf,"PGM\nlibxyz\n"),"the readers are listed"); return; }
	if(bad) { VASSERT(rc != 0 && !opens && vo_err,"an invalid option is refused before anything is opened"); VWITNESS("refused"); return; }
	VASSERT(kind == 8 && argc == 4 ? rc == 1 : rc == 0,"accepted");
	VASSERT(opens == 1 && !strcmp(name,files[file]),"the input is opened");
	VASSERT(r ? reader && !strcmp(reader,r) : !reader,"with the reader asked for");
	VASSERT(t ? type && !strcmp(type,t) : !type,"with the type asked for");
	VASSERT(method == (m ? resdet_get_method(m) : meths),"with the method asked for");
	VASSERT(have_params,"with parameters");
	VASSERT(given.range == range,"the range asked for");
	VASSERT(thr < 0 ? given.threshold == -1 : given.threshold >= thr-1e-7 && given.threshold <= thr+1e-7,"the threshold asked for, a hundredth of the percentage");
	VASSERT(given.filter == filter,"the filter asked for");
	VASSERT(vo_len > 0 || argc == 4,"results printed");
	VWITNESS("accepted");
}
int main(void) {
	start();
	if(MODE == OUTCOME) outcome();
	if(MODE == FRAMES) frames();
	if(MODE == OPTIONS) options();
	return 0;
}
