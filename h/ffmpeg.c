/* C35: files through FFmpeg: a model of demuxing (several streams, packets), decoding (with delay), scaling to gray
 * floats (padded lines) and of the errors of every call. */
#include "ext.h"
#include <errno.h>
#include <stdio.h>
#include <libavutil/avstring.h>
#include <libavutil/opt.h>
#include <libavformat/avformat.h>
#include <libavcodec/avcodec.h>
#include <libswscale/swscale.h>
#ifndef NPK
#define NPK 3           /* packets in the file */
#endif
#define PAD 3
#ifndef LARGE
#define LARGE 0     /* one sample in LARGE free */
#endif
static int cause;       /* what a failing call returns */
static int fault(void) { if(!ext_fails()) return 0; static const int e[] = { AVERROR(EIO),AVERROR(ENOMEM),AVERROR_INVALIDDATA,AVERROR_EXTERNAL }; return cause = e[nd_choice(0,3)]; }
static float I[NPK][W*H];
static struct { int stream; size_t frame; } pk[NPK]; static size_t npk, at;   /* the file's packets */
static int video, delay; static bool odd;                                     /* odd: the last frame has another size */
static AVFormatContext F; static AVStream S[2],* SP[2] = { &S[0],&S[1] }; static AVCodecParameters par[2];
static AVCodecContext C; static AVFrame fr[2]; static AVPacket PK; static struct SwsContext { int live, init; int64_t o[6]; } X; static AVCodec dec;
static struct { bool fmt, codec, frame[2], packet, params, open; } alive;
static size_t queue[NPK+1], qn; static bool draining; static size_t held[2]; static bool holding[2], packet_held;
static float plane[2][(W+PAD)*H]; static int planes;

static const struct { int tag; const char* text; } tags[] = { { AVERROR_EOF,"End of file" },{ AVERROR_INVALIDDATA,"Invalid data found when processing input" },{ AVERROR_EXTERNAL,"Generic error in an external library" } };
int av_strerror(int e, char* b, size_t n) {
	for(int i = 0; i < 3; i++) if(tags[i].tag == e) { strncpy(b,tags[i].text,n-1); b[n-1] = 0; return 0; }
	const char* s = strerror(AVUNERROR(e)); strncpy(b,s,n-1); b[n-1] = 0; return 0;
}
int avformat_open_input(AVFormatContext** f, const char* url, const AVInputFormat* i, AVDictionary** o) {
	VASSERT(!strncmp(url,"in.",3) || !strcmp(url,"pipe:") || !strcmp(url,"fd:"),"the named file, or standard input");
	VASSERT(!*f && !alive.fmt,"one input");
	int e = fault(); if(e) return e;
	alive.fmt = true; ext_live++; F.nb_streams = 2; F.streams = SP; S[0].codecpar = &par[0]; S[1].codecpar = &par[1]; S[1].index = 1; *f = &F;
	return 0;
}
void avformat_close_input(AVFormatContext** f) { if(!f || !*f) return; VASSERT(*f == &F && alive.fmt,"closed once"); alive.fmt = false; ext_live--; *f = NULL; }
int avformat_find_stream_info(AVFormatContext* f, AVDictionary** o) { VASSERT(alive.fmt && f == &F,"an open input"); int e = fault(); return e ? e : !LARGE && nd_choice(0,1); }
int av_find_best_stream(AVFormatContext* f, enum AVMediaType t, int w, int r, const AVCodec** d, int fl) {
	VASSERT(alive.fmt && f == &F && t == AVMEDIA_TYPE_VIDEO,"the video stream");
	int e = fault(); if(e) return e;
	if(d) *d = &dec; return video;
}
AVCodecContext* avcodec_alloc_context3(const AVCodec* d) { VASSERT(d == &dec && !alive.codec,"one decoder"); if(ext_fails()) { cause = AVERROR(ENOMEM); return NULL; } alive.codec = true; ext_live++; return &C; }
void avcodec_free_context(AVCodecContext** c) { if(!c || !*c) return; VASSERT(*c == &C && alive.codec,"released once"); alive.codec = false; ext_live--; *c = NULL; }
int avcodec_parameters_to_context(AVCodecContext* c, const AVCodecParameters* p) { VASSERT(c == &C && p == &par[video],"the parameters of the video stream"); int e = fault(); if(e) return e; alive.params = true; C.width = W; C.height = H; C.pix_fmt = AV_PIX_FMT_YUV420P; return 0; }
int avcodec_open2(AVCodecContext* c, const AVCodec* d, AVDictionary** o) { VASSERT(c == &C && d == &dec && alive.params,"a decoder set up"); int e = fault(); if(e) return e; alive.open = true; return 0; }
AVFrame* av_frame_alloc(void) { if(ext_fails()) { cause = AVERROR(ENOMEM); return NULL; } for(int i = 0; i < 2; i++) if(!alive.frame[i]) { alive.frame[i] = true; ext_live++; fr[i] = (AVFrame){ .format = -1 }; return &fr[i]; } VASSERT(0,"two frames suffice"); return NULL; }
static int idx(const AVFrame* f) { int i = f == &fr[1]; VASSERT(f == &fr[i] && alive.frame[i],"a live frame"); return i; }
void av_frame_unref(AVFrame* f) { int i = idx(f); if(holding[i]) { holding[i] = false; ext_live--; } fr[i] = (AVFrame){ .format = -1 }; }
void av_frame_free(AVFrame** f) { if(!f || !*f) return; int i = idx(*f); av_frame_unref(*f); alive.frame[i] = false; ext_live--; *f = NULL; }
AVPacket* av_packet_alloc(void) { VASSERT(!alive.packet,"one packet"); if(ext_fails()) { cause = AVERROR(ENOMEM); return NULL; } alive.packet = true; ext_live++; return &PK; }
void av_packet_unref(AVPacket* p) { VASSERT(p == &PK && alive.packet,"a live packet"); if(packet_held) { packet_held = false; ext_live--; } }
void av_packet_free(AVPacket** p) { if(!p || !*p) return; av_packet_unref(*p); alive.packet = false; ext_live--; *p = NULL; }
struct SwsContext* sws_alloc_context(void) { VASSERT(!X.live,"one scaler"); if(ext_fails()) { cause = AVERROR(ENOMEM); return NULL; } X.live = 1; ext_live++; return &X; }
void sws_freeContext(struct SwsContext* s) { if(!s) return; VASSERT(s == &X && X.live,"released once"); X.live = 0; ext_live--; }
int av_opt_set_int(void* o, const char* n, int64_t v, int fl) {
	VASSERT(o == &X && X.live && !X.init,"options are set before the start");
	static const char* const names[] = { "srcw","srch","src_format","dstw","dsth","dst_format" };
	for(int i = 0; i < 6; i++) if(!strcmp(names[i],n)) { X.o[i] = v; return 0; }
	return 0;
}
int sws_init_context(struct SwsContext* s, SwsFilter* a, SwsFilter* b) {
	VASSERT(s == &X && X.live,"a live scaler");
	VASSERT(X.o[0] == W && X.o[1] == H && X.o[2] == AV_PIX_FMT_YUV420P && X.o[3] == W && X.o[4] == H && X.o[5] == AV_PIX_FMT_GRAYF32,"from the decoder's format to gray floats, without resizing");
	int e = fault(); if(e) return e;
	X.init = 1; return 0;
}
int av_read_frame(AVFormatContext* f, AVPacket* p) {
	VASSERT(alive.fmt && f == &F && p == &PK && alive.packet,"live objects");
	VASSERT(!packet_held,"the packet before was released");
	if(at == npk) return AVERROR_EOF;
	packet_held = true; ext_live++;
	p->stream_index = pk[at].stream; p->size = 1; at++;
	return 0;
}
int avcodec_send_packet(AVCodecContext* c, const AVPacket* p) {
	VASSERT(c == &C && alive.open,"an open decoder");
	if(draining) return AVERROR_EOF;
	if(!p) { draining = true; return 0; }
	VASSERT(p == &PK && packet_held && pk[at-1].stream == video,"packets of the video stream");
	int e = fault(); if(e) return e;
	queue[qn++] = pk[at-1].frame;
	return 0;
}
int avcodec_receive_frame(AVCodecContext* c, AVFrame* f) {
	VASSERT(c == &C && alive.open,"an open decoder");
	av_frame_unref(f);
	if(qn <= (size_t)(draining ? 0 : delay)) return draining ? AVERROR_EOF : AVERROR(EAGAIN);
	int e = fault(); if(e) return e;
	int i = idx(f);
	held[i] = queue[0]; holding[i] = true; ext_live++;
	for(size_t k = 1; k < qn; k++) queue[k-1] = queue[k];
	qn--;
	f->width = W+(odd && held[i]+1 == ext_total); f->height = H; f->format = AV_PIX_FMT_YUV420P;
	return 0;
}
int sws_scale_frame(struct SwsContext* s, AVFrame* d, const AVFrame* f) {
	int i = idx(f), k = idx(d);
	VASSERT(s == &X && X.init && holding[i] && i != k,"a decoded frame");
	VASSERT(f->width == X.o[0] && f->height == X.o[1],"a frame of the size the scaler was set up for");
	VASSERT(d->width == W && d->height == H && d->format == AV_PIX_FMT_GRAYF32,"into a gray frame");
	int e = fault(); if(e) return e;
	if(!d->data[0]) { holding[k] = true; ext_live++; d->data[0] = (uint8_t*)plane[k]; d->linesize[0] = (W+PAD)*4; }
	for(int y = 0; y < H; y++) memcpy(d->data[0]+y*d->linesize[0],I[held[i]]+y*W,W*4);
	return H;
}
static AVInputFormat fmts[3] = { { .name = "a",.extensions = "mkv,mk3d" },{ .name = "b" },{ .name = "c",.extensions = "jpg,JPEG,xyz" } };
const AVInputFormat* av_demuxer_iterate(void** st) { uintptr_t i = (uintptr_t)*st; if(i >= 3) return NULL; *st = (void*)(i+1); return &fmts[i]; }
int av_match_name(const char* name, const char* names) {
	if(!name || !names) return 0;
	size_t n = strlen(name);
	while(*names) {
		const char* p = names; size_t k = 0; while(p[k] && p[k] != ',') k++;
		if(k == n) { size_t q = 0; while(q < n && (name[q]|32) == (p[q]|32)) q++; if(q == n) return 1; }
		names = p+k+(p[k] == ',');
	}
	return 0;
}
static int ext_pixel(size_t f, size_t i, float v) { return fbits(v) == fbits(I[f][i]); }
#ifdef EXTS
/* with MagickWand built in, FFmpeg is chosen for the extensions its demuxers list */
#include "image.h"
static int magick;
static void* m_open(const char* f, size_t* w, size_t* h, RDError* e) { magick++; *w = *h = 1; return malloc(1); }
static bool m_read(void* c, float* i, size_t w, size_t h, RDError* e) { return false; }
static bool m_seek(void* c, uint64_t o, void(*p)(void*,uint64_t), void* pc, size_t w, size_t h, RDError* e) { return false; }
static bool m_ext(const char* x) { return true; }
struct image_reader resdet_image_reader_magickwand = { .open = m_open, .read_frame = m_read, .seek_frame = m_seek, .close = free, .supports_ext = m_ext };
int main(void) {
	static const struct { const char* x; int ff; } xs[] = { { "mkv",1 },{ "mk3d",1 },{ "MK3D",1 },{ "xyz",1 },{ "jpeg",1 },{ "mk",0 },{ "mkv,",0 },{ "yz",0 },{ "webp",0 },{ "",0 },{ "xyzz",0 } };
	unsigned k = nd_choice(0,10); bool type = nd_choice(0,1); char name[16] = "in.";
	strcat(name,type ? "bin" : xs[k].x);
	npk = 1; ext_total = 1; size_t w, h; RDError e;
	RDImage* im = resdet_open_image(type ? "in.xyz" : xs[k].x[0] ? name : "in",type ? xs[k].x : NULL,&w,&h,NULL,&e);
	VASSERT(im && !e,"opens");
	VASSERT(magick == !xs[k].ff,"by FFmpeg exactly for the extensions it lists");
	resdet_close_image(im);
	VWITNESS("chosen");
	return 0;
}
#else
int main(void) {
	video = LARGE ? 1 : nd_choice(0,1); delay = LARGE > 9999 ? 1 : nd_choice(0,2); odd = FAIL && nd_choice(0,1);
	npk = LARGE ? NPK : nd_choice(1,NPK);
	for(size_t i = 0; i < npk; i++) {
		pk[i].stream = LARGE ? i%3 != 1 : nd_choice(0,1);
		if(pk[i].stream == video) { pk[i].frame = ext_total; for(int k = 0; k < W*H; k++) I[ext_total][k] = !LARGE || (i*W*H+k)%LARGE == LARGE/2 ? nd_f32() : i+k*.25f; ext_total++; }
	}
	VASSUME(!odd || ext_total);
	vm_fail = FAIL; vm_fail_budget = FAIL && !odd;
	float* buf; RDError e;
	RDImage* im = ext_open(!LARGE && nd_choice(0,1) ? "-" : "in.xyz","FFmpeg",&buf,&e);
	if(vm_failures) {
		VASSERT(!im,"a file that cannot be opened or decoded is refused"); ext_error(e);
		if(cause == AVERROR(EIO)) VASSERT(e == -EIO,"system errors are passed on");
		if(cause == AVERROR(ENOMEM)) VASSERT(e == RDENOMEM || e == -ENOMEM,"lack of memory is reported as such");
		VWITNESS("header fails");
	}
	else if(!im) VASSERT(0,"a valid file opens");
	else if(odd) {
		for(size_t p = 0; p+1 < ext_total; p++) { VASSERT(resdet_read_image_frame(im,buf,&e) && !e,"frames of the size of the image"); for(int i = 0; i < W*H; i++) VASSERT(ext_pixel(p,i,buf[i]),"the decoded samples, in place"); }
		VASSERT(!resdet_read_image_frame(im,buf,&e) && e,"a frame of another size is an error");
		VWITNESS("odd size");
	}
	else ext_run(im,buf);
	ext_done(im,buf);
	return 0;
}
#endif
