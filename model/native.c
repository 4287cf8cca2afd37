/* Replay-side environment: the real C library, with symbolic values read back from the counterexample
 * ($VREPLAY), allocation failures injected where it has them, and the declared file served through
 * fopencookie.  Linked with -Wl,--wrap=... */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <unistd.h>
#include "v.h"

int vm_fail = 0; unsigned vm_fail_budget = ~0u; unsigned vm_failures = 0; long vm_live = 0; size_t vm_limit = (size_t)1<<38, vm_biggest;
void* __real_malloc(size_t); void* __real_calloc(size_t,size_t); void* __real_realloc(void*,size_t); void __real_free(void*);
FILE* __real_fopen(const char*,const char*); int __real_fclose(FILE*);

static int saved_err = -1; static FILE* rf; static int fill = 0xA5;
static FILE* mk(void);
__attribute__((constructor)) static void init(void) {
	const char* r = getenv("VREPLAY");
	if(r && !(rf = __real_fopen(r,"r"))) { perror(r); _exit(99); }
	if(getenv("VFILL")) fill = strtol(getenv("VFILL"),NULL,0);
}
static uint64_t nd_bits(const char* want) {
	char name[64]; unsigned long long v;
	if(!rf) return 0;
	if(fscanf(rf,"%63s %llu",name,&v) != 2) return 0;   /* the trace stops at the violation */
	if(strcmp(name,want)) { fprintf(stderr,"replay: expected %s, have %s\n",want,name); _exit(98); }
	return v;
}
uint8_t nd_u8(void) { return nd_bits("u8"); }
uint16_t nd_u16(void) { return nd_bits("u16"); }
uint32_t nd_u32(void) { return nd_bits("u32"); }
uint64_t nd_u64(void) { return nd_bits("u64"); }
int32_t nd_i32(void) { return (int32_t)nd_bits("i32"); }
float nd_f32(void) { union { uint32_t u; float f; } v = { nd_bits("f32") }; return v.f; }
float nd_unit(void) { return nd_f32(); }
double nd_f64(void) { union { uint64_t u; double f; } v = { nd_bits("f64") }; return v.f; }
void v_assume(int c) { if(!c) { fprintf(stderr,"ASSUMPTION NOT MET\n"); _exit(97); } }
void v_assert(int c, const char* what) { if(!c) { fflush(stderr); dprintf(saved_err >= 0 ? saved_err : 2,"ASSERTION VIOLATED: %s\n",what); _exit(42); } }
uint32_t nd_choice(uint32_t lo, uint32_t hi) { uint32_t v = nd_bits("u32"); if(!rf) v = lo; v_assume(v >= lo && v <= hi); return v; }
void v_witness(const char* w) {}
void v_cover(int c, const char* w) {}
uint64_t v_concretize(uint64_t x) { return x; }
int v_valid(const void* p, size_t n) { return 1; }
int v_writable(const void* p, size_t n) { volatile char* q = (volatile char*)p; for(size_t i = 0; i < n; i++) q[i] = q[i]; return 1; }
#include <sys/mman.h>
void* v_readonly(void* p, size_t n) {
	void* q = mmap(NULL,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
	if(q == MAP_FAILED) _exit(96);
	memcpy(q,p,n); mprotect(q,n,PROT_READ);
	return q;
}
void v_end_path(void) { exit(0); }
int v_symbolic(void) { return 0; }

int v_injected_failure(void) {
	if(vm_fail && vm_failures < vm_fail_budget && nd_choice(0,1)) { vm_failures++; return 1; }
	return 0;
}
static int refused(size_t n) {
	if(n > vm_biggest) vm_biggest = n;
	if(n > vm_limit || v_injected_failure()) { errno = ENOMEM; return 1; }
	return 0;
}
void* __wrap_malloc(size_t n) {
	if(refused(n)) return NULL;
	vm_live++;
	void* p = __real_malloc(n);
	if(p && n < 1<<20) memset(p,fill,n);
	return p;
}
void* __wrap_calloc(size_t n, size_t s) {
	size_t t;
	if(__builtin_mul_overflow(n,s,&t)) { errno = ENOMEM; return NULL; }
	if(refused(t)) return NULL;
	vm_live++;
	return __real_calloc(n,s);
}
void __wrap_free(void* p) { if(p) { vm_live--; __real_free(p); } }
void* __wrap_realloc(void* p, size_t n) {
	if(!p) return __wrap_malloc(n);
	if(refused(n)) return NULL;
	return __real_realloc(p,n);
}
void* __wrap_reallocarray(void* p, size_t n, size_t s) {
	size_t t;
	if(__builtin_mul_overflow(n,s,&t)) { errno = ENOMEM; return NULL; }
	return __wrap_realloc(p,t);
}
char* __wrap_strndup(const char* s, size_t m) { size_t n = strnlen(s,m); char* d = __wrap_malloc(n+1); if(d) { memcpy(d,s,n); d[n] = 0; } return d; }
char* __wrap_strdup(const char* s) { return __wrap_strndup(s,SIZE_MAX-1); }

struct cookie { const unsigned char* data; size_t size, pos, io_error_at; };
static struct cookie proto, *last; static char vf_name[4096];
int vf_open_count, vf_close_count, vf_stdin_closed;
size_t vf_io_error_at = SIZE_MAX;
static bool seekable; static FILE* vin, *real_in;
static ssize_t c_read(void* c_, char* buf, size_t n) {
	struct cookie* c = c_;
	if(c->pos >= c->io_error_at) { errno = EIO; return -1; }
	size_t end = c->size < c->io_error_at ? c->size : c->io_error_at;
	size_t left = c->pos < end ? end-c->pos : 0;
	if(n > left) n = left;
	memcpy(buf,c->data+c->pos,n);
	c->pos += n;
	return n;
}
static int c_seek(void* c_, off64_t* off, int whence) {
	struct cookie* c = c_;
	off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)c->pos : (off64_t)c->size;
	if(*off < -base || (*off > 0 && base > LONG_MAX-*off)) { errno = EINVAL; return -1; }
	*off = c->pos = base+*off;
	return 0;
}
static int c_close(void* c_) { if(last == c_) last = NULL; __real_free(c_); return 0; }
static FILE* mk(void) {
	struct cookie* c = __real_malloc(sizeof *c);
	*c = proto; c->io_error_at = vf_io_error_at; last = c;
	cookie_io_functions_t io = { .read = c_read, .seek = seekable ? c_seek : NULL, .close = c_close };
	FILE* f = fopencookie(c,"rb",io);
	setvbuf(f,NULL,_IONBF,0);
	return f;
}
void vf_file(const char* name, const unsigned char* data, size_t size, bool s) {
	snprintf(vf_name,sizeof vf_name,"%s",name);
	unsigned char* d = __real_malloc(size ? size : 1); memcpy(d,data,size);   /* exact-size copy */
	proto = (struct cookie){ d,size,0,SIZE_MAX };
	seekable = s;
	if(!strcmp(name,"-")) { vin = mk(); stdin = vin; }
}
size_t vf_tell(void) { return last ? last->pos : 0; }
FILE* __wrap_fopen(const char* name, const char* mode) {
	v_assert(mode[0] == 'r',"files are only opened for reading");
	if(strcmp(name,vf_name) || !strcmp(name,"-")) { errno = ENOENT; return NULL; }
	if(v_injected_failure()) { errno = EMFILE; return NULL; }
	vm_live++; vf_open_count++;
	return mk();
}
FILE* __wrap_fopen64(const char* name, const char* mode) { return __wrap_fopen(name,mode); }
int __wrap_fclose(FILE* f) {
	v_assert(f != NULL,"stream operations only on an open stream");
	if(f == vin) { vf_stdin_closed++; return 0; }
	vf_close_count++; vm_live--;
	return __real_fclose(f);
}
/* leak- and race-free exit so that sanitizer reports decide the outcome */

/* captured output: the harness calls vo_sync() before looking at it */
char vo_buf[65536], ve_buf[2048]; size_t vo_len, vo_err;
static char tmp_out[] = "/tmp/vo-XXXXXX", tmp_err[] = "/tmp/ve-XXXXXX"; static int ofd = -1, efd = -1;
void vo_begin(void) {
	fflush(stdout); fflush(stderr);
	ofd = mkstemp(tmp_out); efd = mkstemp(tmp_err);
	unlink(tmp_out); unlink(tmp_err);
	saved_err = dup(2);
	dup2(ofd,1); dup2(efd,2);
}
void vo_sync(void) {
	fflush(stdout); fflush(stderr);
	if(ofd < 0) return;
	vo_len = pread(ofd,vo_buf,sizeof vo_buf-1,0); vo_buf[vo_len] = 0;
	vo_err = lseek(efd,0,SEEK_END);
	ssize_t n = pread(efd,ve_buf,sizeof ve_buf-1,0); ve_buf[n < 0 ? 0 : n] = 0;
	dup2(saved_err,2); dup2(saved_err,1);
	ofd = -1;
}
#include <getopt.h>
void v_reset_getopt(void) { optind = 1; }
