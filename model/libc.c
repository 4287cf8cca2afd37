/* C library models for symbolic execution (linked instead of libc; never part of native builds). */
#include <stdarg.h>
#include <limits.h>
#include <errno.h>
#include <float.h>
#include "v.h"
#define EOF (-1)
#define SEEK_SET 0
#define SEEK_CUR 1
#define SEEK_END 2

void* v_alloc_raw(size_t n, int zeroed);
void v_free_raw(void* p);
size_t v_objsize(void* p);
void* memcpy(void*,const void*,size_t);
void* memset(void*,int,size_t);

int vm_fail = 0; unsigned vm_fail_budget = ~0u; unsigned vm_failures = 0; long vm_live = 0; size_t vm_limit = (size_t)1<<38, vm_biggest;
static int v_errno;
int* __errno_location(void) { return &v_errno; }
int v_symbolic(void) { return 1; }
int v_writable(const void* p, size_t n) { return v_valid(p,n); }

int v_injected_failure(void) {
	if(vm_fail && vm_failures < vm_fail_budget && nd_choice(0,1)) { vm_failures++; return 1; }
	return 0;
}
static int refused(size_t n) {
	if(n > vm_biggest) vm_biggest = n;
	if(n > vm_limit || v_injected_failure()) { v_errno = ENOMEM; return 1; }
	return 0;
}
void* malloc(size_t n) {
	if(refused(n)) return NULL;
	vm_live++;
	return v_alloc_raw(n,0);
}
void* calloc(size_t n, size_t s) {
	size_t t;
	if(__builtin_mul_overflow(n,s,&t)) { v_errno = ENOMEM; return NULL; }
	if(refused(t)) return NULL;
	vm_live++;
	return v_alloc_raw(t,1);
}
void free(void* p) {
	if(p) { vm_live--; v_free_raw(p); }
}
void* realloc(void* p, size_t n) {
	if(!p) return malloc(n);
	size_t old = v_objsize(p);
	if(refused(n)) return NULL;
	void* q = v_alloc_raw(n,0);
	memcpy(q,p,old < n ? old : n);
	v_free_raw(p);
	return q;
}
void* reallocarray(void* p, size_t n, size_t s) {
	size_t t;
	if(__builtin_mul_overflow(n,s,&t)) { v_errno = ENOMEM; return NULL; }
	return realloc(p,t);
}

/* ---- strings ---- */
size_t strlen(const char* s) { size_t n = 0; while(s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while(n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) {
	for(;; a++, b++) { unsigned char x = *a, y = *b; if(x != y) return x < y ? -1 : 1; if(!x) return 0; }
}
int strncmp(const char* a, const char* b, size_t n) {
	for(; n; a++, b++, n--) { unsigned char x = *a, y = *b; if(x != y) return x < y ? -1 : 1; if(!x) return 0; }
	return 0;
}
int tolower(int c), toupper(int c);
int strncasecmp(const char* a, const char* b, size_t n) {
	for(; n; a++, b++, n--) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if(x != y || !x) return x-y; }
	return 0;
}
int strcasecmp(const char* a, const char* b) { return strncasecmp(a,b,SIZE_MAX); }
int memcmp(const void* a_, const void* b_, size_t n) {
	const unsigned char* a = a_,* b = b_;
	for(size_t i = 0; i < n; i++) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
	return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a,b,n); }
void* memchr(const void* s_, int c, size_t n) {
	const unsigned char* s = s_;
	for(size_t i = 0; i < n; i++) if(s[i] == (unsigned char)c) return (void*)(s+i);
	return NULL;
}
char* strchr(const char* s, int c) { for(;; s++) { if(*s == (char)c) return (char*)s; if(!*s) return NULL; } }
char* strrchr(const char* s, int c) { const char* r = NULL; for(;; s++) { if(*s == (char)c) r = s; if(!*s) return (char*)r; } }
char* strstr(const char* h, const char* n) {
	for(;; h++) {
		size_t i = 0;
		while(n[i] && h[i] == n[i]) i++;
		if(!n[i]) return (char*)h;
		if(!*h) return NULL;
	}
}
size_t strspn(const char* s, const char* set) { size_t n = 0; while(s[n] && strchr(set,s[n])) n++; return n; }
size_t strcspn(const char* s, const char* set) { size_t n = 0; while(s[n] && !strchr(set,s[n])) n++; return n; }
char* strpbrk(const char* s, const char* set) { s += strcspn(s,set); return *s ? (char*)s : NULL; }
char* strcpy(char* d, const char* s) { memcpy(d,s,strlen(s)+1); return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for(; i < n && s[i]; i++) d[i] = s[i]; for(; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d+strlen(d),s); return d; }
char* strdup(const char* s) { size_t n = strlen(s)+1; char* d = malloc(n); if(d) memcpy(d,s,n); return d; }
char* strndup(const char* s, size_t m) { size_t n = strnlen(s,m); char* d = malloc(n+1); if(d) { memcpy(d,s,n); d[n] = 0; } return d; }
char* strtok_r(char* s, const char* set, char** save) {
	if(!s) s = *save;
	s += strspn(s,set);
	if(!*s) { *save = s; return NULL; }
	char* e = s+strcspn(s,set);
	if(*e) *e++ = 0;
	*save = e;
	return s;
}
char* strtok(char* s, const char* set) { static char* save; return strtok_r(s,set,&save); }
char* setlocale(int category, const char* locale) { static volatile char set; if(locale) set = 1; return "C"; }

int isspace(int c) { return (c == ' ') | ((unsigned)c-9u <= 4u); }
int isblank(int c) { return (c == ' ') | (c == '\t'); }
int isdigit(int c) { return (unsigned)c-'0' <= 9u; }
int isupper(int c) { return (unsigned)c-'A' <= 25u; }
int islower(int c) { return (unsigned)c-'a' <= 25u; }
int isalpha(int c) { return isupper(c) | islower(c); }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | ((unsigned)c-'a' <= 5u) | ((unsigned)c-'A' <= 5u); }
int isprint(int c) { return (unsigned)c-32u <= 94u; }
int isgraph(int c) { return (unsigned)c-33u <= 93u; }
int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
int ispunct(int c) { return isgraph(c) & !isalnum(c); }
int tolower(int c) { return isupper(c) ? c+32 : c; }
int toupper(int c) { return islower(c) ? c-32 : c; }

/* ---- numbers: decimal, octal and hexadecimal; saturating like glibc ---- */
static unsigned long conv(const char* s, char** end, int base, bool* neg, bool* over) {
	const char* p = s;
	while(isspace((unsigned char)*p)) p++;
	*neg = *over = false;
	if(*p == '+' || *p == '-') *neg = *p++ == '-';
	if((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { base = 16; p += 2; }
	else if(base == 0) base = *p == '0' ? 8 : 10;
	unsigned long v = 0; bool any = false;
	for(;; p++) {
		unsigned d, c = (unsigned char)*p;
		if(isdigit(c)) d = c-'0';
		else if(isalpha(c)) d = tolower(c)-'a'+10;
		else break;
		if(d >= base) break;
		any = true;
		if(*over || v > (ULONG_MAX-d)/base) *over = true; else v = v*base+d;
	}
	if(end) *end = (char*)(any ? p : s);
	return v;
}
unsigned long strtoul(const char* s, char** end, int base) {
	bool neg, over; unsigned long v = conv(s,end,base,&neg,&over);
	if(over) { v_errno = ERANGE; return ULONG_MAX; }
	return neg ? -v : v;
}
long strtol(const char* s, char** end, int base) {
	bool neg, over; unsigned long v = conv(s,end,base,&neg,&over);
	if(over || v > (unsigned long)LONG_MAX + neg) { v_errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
	return neg ? (long)-v : (long)v;
}
unsigned long long strtoull(const char* s, char** end, int base) { return strtoul(s,end,base); }
long long strtoll(const char* s, char** end, int base) { return strtol(s,end,base); }
uintmax_t strtoumax(const char* s, char** end, int base) { return strtoul(s,end,base); }
intmax_t strtoimax(const char* s, char** end, int base) { return strtol(s,end,base); }
unsigned long __isoc23_strtoul(const char* s, char** end, int base) { return strtoul(s,end,base); }
long __isoc23_strtol(const char* s, char** end, int base) { return strtol(s,end,base); }
unsigned long long __isoc23_strtoull(const char* s, char** end, int base) { return strtoul(s,end,base); }
long long __isoc23_strtoll(const char* s, char** end, int base) { return strtol(s,end,base); }
uintmax_t __isoc23_strtoumax(const char* s, char** end, int base) { return strtoul(s,end,base); }
int atoi(const char* s) { return strtol(s,NULL,10); }
long atol(const char* s) { return strtol(s,NULL,10); }
double v_parse_float(const char* s, size_t* len);      /* executor builtin: longest valid prefix of the (concrete) text */
float v_parse_float32(const char* s, size_t* len);
double strtod(const char* s, char** end) { size_t n; double r = v_parse_float(s,&n); if(end) *end = (char*)s+n; return r; }
float strtof(const char* s, char** end) { size_t n; float r = v_parse_float32(s,&n); if(end) *end = (char*)s+n; return r; }
double atof(const char* s) { return strtod(s,NULL); }

/* ---- streams ---- */
typedef struct VFILE { const unsigned char* data; size_t size, pos, io_error_at; unsigned char open, eof, err, seekable, kind, unget, has_unget; } VFILE;
static VFILE proto, v_in, v_out = { .open = 1, .kind = 1 }, v_err = { .open = 1, .kind = 2 }; static const char* vf_name; static VFILE* last;
VFILE* stdin = &v_in,* stdout = &v_out,* stderr = &v_err;
int vf_open_count, vf_close_count, vf_stdin_closed;
size_t vf_io_error_at = SIZE_MAX;
void vf_file(const char* name, const unsigned char* data, size_t size, bool seekable) {
	unsigned char* d = v_alloc_raw(size,0);       /* exact-size copy */
	memcpy(d,data,size);
	proto = (VFILE){ .data = d, .size = size, .io_error_at = vf_io_error_at, .open = 1, .seekable = seekable };
	vf_name = name;
	v_in = proto; last = strcmp(name,"-") ? NULL : &v_in;
}
size_t vf_tell(void) { return last ? last->pos-last->has_unget : 0; }
VFILE* fopen(const char* name, const char* mode) {
	v_assert(mode[0] == 'r',"files are only opened for reading");
	if(!vf_name || strcmp(name,vf_name) || !strcmp(name,"-")) { v_errno = ENOENT; return NULL; }
	if(v_injected_failure()) { v_errno = EMFILE; return NULL; }
	VFILE* f = v_alloc_raw(sizeof *f,0);
	vm_live++; vf_open_count++;
	*f = proto;
	f->io_error_at = vf_io_error_at;
	last = f;
	return f;
}
VFILE* fopen64(const char* name, const char* mode) { return fopen(name,mode); }
static void live(VFILE* f) { v_assert(f != NULL && f->open,"stream operations only on an open stream"); }
int fclose(VFILE* f) {
	live(f);
	f->open = 0;
	if(f == &v_in) { vf_stdin_closed++; return 0; }
	vf_close_count++; vm_live--;
	if(f == last) last = NULL;
	v_free_raw(f);
	return 0;
}
int fgetc(VFILE* f) {
	live(f);
	if(f->has_unget) { f->has_unget = 0; return f->unget; }
	if(f->pos >= f->io_error_at) { f->err = 1; v_errno = EIO; return EOF; }
	if(f->pos >= f->size) { f->eof = 1; return EOF; }
	return f->data[f->pos++];
}
int getc(VFILE* f) { return fgetc(f); }
int _IO_getc(VFILE* f) { return fgetc(f); }
int getc_unlocked(VFILE* f) { return fgetc(f); }
int getchar(void) { return fgetc(stdin); }
int ungetc(int c, VFILE* f) {
	live(f);
	if(c == EOF) return EOF;
	f->has_unget = 1; f->unget = (unsigned char)c; f->eof = 0;
	return (unsigned char)c;
}
size_t fread(void* buf, size_t size, size_t n, VFILE* f) {
	live(f);
	size_t want = size*n, got = 0;
	if(!want) return 0;
	unsigned char* d = buf;
	if(f->has_unget) { f->has_unget = 0; d[got++] = f->unget; }
	size_t end = f->size < f->io_error_at ? f->size : f->io_error_at, avail = f->pos < end ? end-f->pos : 0, m = want-got;
	if(m > avail) {
		m = avail;
		if(f->io_error_at <= f->size) { f->err = 1; v_errno = EIO; } else f->eof = 1;
	}
	memcpy(d+got,f->data+f->pos,m);
	f->pos += m; got += m;
	return got/size;
}
int fseek(VFILE* f, long off, int whence) {
	live(f);
	if(!f->seekable) { v_errno = ESPIPE; return -1; }
	long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (long)(f->pos-f->has_unget) : (long)f->size;
	if(off < 0 ? off < -base : base > LONG_MAX-off) { v_errno = EINVAL; return -1; }
	f->pos = base+off;
	f->eof = 0; f->has_unget = 0;
	return 0;
}
int fseeko(VFILE* f, long off, int whence) { return fseek(f,off,whence); }
int fseeko64(VFILE* f, long off, int whence) { return fseek(f,off,whence); }
long ftell(VFILE* f) { live(f); if(!f->seekable) { v_errno = ESPIPE; return -1; } return f->pos-f->has_unget; }
long ftello(VFILE* f) { return ftell(f); }
long ftello64(VFILE* f) { return ftell(f); }
int feof(VFILE* f) { live(f); return f->eof; }
int ferror(VFILE* f) { live(f); return f->err; }
void clearerr(VFILE* f) { f->eof = f->err = 0; }
void rewind(VFILE* f) { fseek(f,0,SEEK_SET); f->err = 0; }
int fileno(VFILE* f) { return f == &v_in ? 0 : f == &v_out ? 1 : f == &v_err ? 2 : 3; }
int setvbuf(VFILE* f, char* b, int m, size_t n) { return 0; }
int fflush(VFILE* f) { return 0; }
char* fgets(char* b, int n, VFILE* f) {
	int i = 0, c = 0;
	while(i < n-1 && (c = fgetc(f)) != EOF) { b[i++] = c; if(c == '\n') break; }
	if((c == EOF && !i) || f->err) return NULL;
	b[i] = 0;
	return b;
}
/* no stat/lseek model: callers must cope with failure */
int isatty(int fd) { return 0; }

/* scanf family: literals, white space, %c %s %[ %d %i %u %x with h/hh/l/ll/z/j/t modifiers, %f family on concrete text, %n, %%, '*', widths */
struct src { VFILE* f; const char* s; size_t pos; };
static int sget(struct src* r) { if(r->f) return fgetc(r->f); unsigned char c = r->s[r->pos]; if(!c) return EOF; r->pos++; return c; }
static void sunget(struct src* r, int c) { if(c == EOF) return; if(r->f) ungetc(c,r->f); else r->pos--; }
static size_t spos(struct src* r) { return r->f ? r->f->pos-r->f->has_unget : r->pos; }
static int scan(struct src* r, const char* fmt, va_list ap) {
	int done = 0;
	size_t start = spos(r);
	for(const char* p = fmt; *p; p++) {
		int c;
		if(isspace((unsigned char)*p)) {
			while((c = sget(r)) != EOF && isspace(c));
			sunget(r,c);
			continue;
		}
		if(*p != '%' || p[1] == '%') {
			if(*p == '%') { p++; while((c = sget(r)) != EOF && isspace(c)); }
			else c = sget(r);
			if(c == EOF) return done ? done : EOF;
			if(c != (unsigned char)*p) { sunget(r,c); return done; }
			continue;
		}
		p++;
		bool suppress = false; unsigned width = 0; int mod = 0;
		if(*p == '*') { suppress = true; p++; }
		while(isdigit(*p)) width = width*10 + (*p++ - '0');
		if(*p == 'h') { mod = -1; p++; if(*p == 'h') { mod = -2; p++; } }
		else if(*p == 'l') { mod = 1; p++; if(*p == 'l') { p++; } }
		else if(*p == 'z' || *p == 'j' || *p == 't') { mod = 1; p++; }
		if(*p == 'c') {
			if(!width) width = 1;
			char* d = suppress ? NULL : va_arg(ap,char*);
			for(unsigned i = 0; i < width; i++) {
				if((c = sget(r)) == EOF) return done ? done : EOF;
				if(d) d[i] = c;
			}
			if(!suppress) done++;
			continue;
		}
		if(*p == 'n') { *va_arg(ap,int*) = spos(r)-start; continue; }
		if(*p == '[') {
			bool inv = false; unsigned char set[256]; memset(set,0,256);
			p++;
			if(*p == '^') { inv = true; p++; }
			const char* b = p;
			for(; *p && (*p != ']' || p == b); p++) {
				if(*p == '-' && p != b && p[1] && p[1] != ']') { for(unsigned q = (unsigned char)p[-1]; q <= (unsigned char)p[1]; q++) set[q] = 1; }
				else set[(unsigned char)*p] = 1;
			}
			char* d = suppress ? NULL : va_arg(ap,char*); unsigned i = 0, left = width ? width : UINT_MAX;
			while(left) {
				c = sget(r);
				if(c == EOF) break;
				bool in = inv;
				for(unsigned q = 0; q < 256; q++) if(set[q] && c == q) in = !inv;
				if(!in) { sunget(r,c); break; }
				if(d) d[i] = c;
				i++; left--;
			}
			if(!i) return c == EOF && !done ? EOF : done;
			if(d) { d[i] = 0; done++; }
			continue;
		}
		while((c = sget(r)) != EOF && isspace(c));
		if(c == EOF) return done ? done : EOF;
		unsigned left = width ? width : UINT_MAX;
		if(*p == 's') {
			char* d = suppress ? NULL : va_arg(ap,char*);
			unsigned i = 0;
			while(c != EOF && !isspace(c)) {
				if(d) d[i] = c;
				i++;
				if(!--left) break;
				c = sget(r);
			}
			if(left) sunget(r,c);
			if(d) { d[i] = 0; done++; }
		}
		else if(*p == 'u' || *p == 'd' || *p == 'i' || *p == 'x') {
			bool neg = false, any = false, over = false; uint64_t v = 0;
			v_assert(*p != 'i',"model: %i is not modelled");
			unsigned base = *p == 'x' ? 16 : 10;
			if(c == '+' || c == '-') { neg = c == '-'; if(--left) c = sget(r); }
			while(left && c != EOF && (isdigit(c) || (base == 16 && isxdigit(c)))) {
				unsigned d = isdigit(c) ? c-'0' : tolower(c)-'a'+10;
				any = true;
				if(over || v > (UINT64_MAX-d)/base) over = true; else v = v*base+d;
				if(--left) c = sget(r);
			}
			if(left) sunget(r,c);
			if(!any) return done;
			if(*p != 'd') { if(over) v = UINT64_MAX; else if(neg) v = -v; }
			else if(over || v > (uint64_t)INT64_MAX + neg) v = neg ? (uint64_t)INT64_MIN : (uint64_t)INT64_MAX;
			else if(neg) v = -v;
			if(!suppress) {
				if(mod == 1) *va_arg(ap,uint64_t*) = v;
				else if(mod == 0) *va_arg(ap,uint32_t*) = v;
				else if(mod == -1) *va_arg(ap,uint16_t*) = v;
				else *va_arg(ap,uint8_t*) = v;
				done++;
			}
		}
		else if(*p == 'f' || *p == 'g' || *p == 'e' || *p == 'a') {
			char tok[64]; unsigned i = 0;
			/* grammar: sign, digits with one point, optional exponent (texts with nan/inf/hex floats are not generated by the harnesses) */
			int state = 0; bool any = false;
			while(left && c != EOF && i < 63) {
				bool ok;
				if(isdigit(c)) { any = true; if(state == 0) state = 1; if(state == 3) state = 4; ok = true; }
				else if(c == '.') { ok = state <= 1; if(ok) state = 2; }
				else if(c == '-' || c == '+') { ok = (state == 0 && i == 0) || state == 3; if(state == 3) state = 4; }
				else if(c == 'e' || c == 'E') { ok = any && state >= 1 && state <= 2; if(ok) state = 3; }
				else ok = false;
				if(!ok) break;
				tok[i++] = c;
				if(--left) c = sget(r);
			}
			if(left) sunget(r,c);
			tok[i] = 0;
			if(!any) return done;
			size_t n;
			if(!suppress) {
				if(mod == 1) *va_arg(ap,double*) = v_parse_float(tok,&n); else *va_arg(ap,float*) = v_parse_float32(tok,&n);
				done++;
			}
		}
		else v_assert(0,"model: scanf conversion not modelled");
	}
	return done;
}
int vfscanf(VFILE* f, const char* fmt, va_list ap) { live(f); struct src r = { f }; return scan(&r,fmt,ap); }
int fscanf(VFILE* f, const char* fmt, ...) { va_list ap; va_start(ap,fmt); int r = vfscanf(f,fmt,ap); va_end(ap); return r; }
int __isoc99_fscanf(VFILE* f, const char* fmt, ...) { va_list ap; va_start(ap,fmt); int r = vfscanf(f,fmt,ap); va_end(ap); return r; }
int __isoc23_fscanf(VFILE* f, const char* fmt, ...) { va_list ap; va_start(ap,fmt); int r = vfscanf(f,fmt,ap); va_end(ap); return r; }
int sscanf(const char* s, const char* fmt, ...) { va_list ap; va_start(ap,fmt); struct src r = { NULL,s }; int n = scan(&r,fmt,ap); va_end(ap); return n; }
int __isoc99_sscanf(const char* s, const char* fmt, ...) { va_list ap; va_start(ap,fmt); struct src r = { NULL,s }; int n = scan(&r,fmt,ap); va_end(ap); return n; }
int __isoc23_sscanf(const char* s, const char* fmt, ...) { va_list ap; va_start(ap,fmt); struct src r = { NULL,s }; int n = scan(&r,fmt,ap); va_end(ap); return n; }

double frexp(double,int*);
/* ---- algorithms ---- */
void qsort(void* base, size_t n, size_t size, int (*cmp)(const void*,const void*)) {
	unsigned char* b = base;
	unsigned char t[64];
	v_assert(size <= 64,"model: qsort element size");
	for(size_t i = 1; i < n; i++)
		for(size_t j = i; j > 0 && cmp(b+(j-1)*size,b+j*size) > 0; j--) {
			memcpy(t,b+(j-1)*size,size);
			memcpy(b+(j-1)*size,b+j*size,size);
			memcpy(b+j*size,t,size);
		}
}

float frexpf(float x, int* e) { return (float)frexp(x,e); }
static char verr[256][4];
char* strerror(int e) {
	char* b = verr[e & 255];
	b[0] = 'E'; b[1] = 'A'+(e >> 4 & 15); b[2] = 'A'+(e & 15);
	return b;
}
int __xpg_strerror_r(int e, char* b, size_t n) { return 0; }

/* ---- output: stdout text is captured, bytes to stderr counted ---- */
char vo_buf[65536]; size_t vo_len, vo_err; char ve_buf[2048];
size_t v_format_float(double v, int prec, int conv, int alt, char* out);   /* executor builtin, concrete values */
int v_undetermined(uint64_t v);
struct sink { char* buf; size_t cap, n; VFILE* f; };
static void emit(struct sink* s, char c) {
	if(s->f) {
		if(s->f == stdout) { v_assert(vo_len < sizeof vo_buf-1,"model: captured output fits"); vo_buf[vo_len++] = c; vo_buf[vo_len] = 0; }
		else { if(vo_err < sizeof ve_buf-1) ve_buf[vo_err] = c; vo_err++; }
	}
	else if(s->n+1 < s->cap) s->buf[s->n] = c;
	s->n++;
}
static void format(struct sink* s, const char* fmt, va_list ap) {
	for(const char* p = fmt; *p; p++) {
		if(*p != '%') { emit(s,*p); continue; }
		p++;
		if(*p == '%') { emit(s,'%'); continue; }
		bool left = false, zero = false, plus = false, space = false, alt = false;
		for(;; p++) {
			if(*p == '-') left = true; else if(*p == '0') zero = true; else if(*p == '+') plus = true; else if(*p == ' ') space = true; else if(*p == '#') alt = true; else break;
		}
		int width = 0, prec = -1, mod = 0;
		if(*p == '*') { width = va_arg(ap,int); p++; if(width < 0) { left = true; width = -width; } }
		else while(isdigit((unsigned char)*p)) width = width*10+(*p++-'0');
		if(*p == '.') { p++; prec = 0; if(*p == '*') { prec = va_arg(ap,int); p++; } else while(isdigit((unsigned char)*p)) prec = prec*10+(*p++-'0'); }
		for(;; p++) {
			if(*p == 'h') mod--; else if(*p == 'l' || *p == 'z' || *p == 'j' || *p == 't') mod = 1; else break;
		}
		char tmp[400]; const char* body = tmp; size_t n = 0; const char* sign = "";
		if(*p == 's') {
			body = va_arg(ap,const char*);
			if(!body) body = "(null)";
			n = prec >= 0 ? strnlen(body,prec) : strlen(body);
			zero = false;
		}
		else if(*p == 'c') { tmp[0] = va_arg(ap,int); n = 1; zero = false; }
		else if(*p == 'd' || *p == 'i' || *p == 'u' || *p == 'x' || *p == 'X' || *p == 'o' || *p == 'p') {
			uint64_t v;
			if(*p == 'p') { v = (uint64_t)va_arg(ap,void*); sign = "0x"; }
			else if(mod > 0) v = va_arg(ap,uint64_t);
			else if(*p == 'd' || *p == 'i') v = (int64_t)va_arg(ap,int);
			else v = va_arg(ap,unsigned);
			if(s->f == stderr && v_undetermined(v)) { emit(s,'#'); continue; }    /* diagnostics: the value itself does not matter */
			v = v_concretize(v);
			if(mod == -1) v = *p == 'd' || *p == 'i' ? (uint64_t)(int64_t)(int16_t)v : (uint16_t)v;
			if(mod == -2) v = *p == 'd' || *p == 'i' ? (uint64_t)(int64_t)(int8_t)v : (uint8_t)v;
			if((*p == 'd' || *p == 'i')) { if((int64_t)v < 0) { sign = "-"; v = -v; } else if(plus) sign = "+"; else if(space) sign = " "; }
			unsigned base = *p == 'x' || *p == 'X' || *p == 'p' ? 16 : *p == 'o' ? 8 : 10;
			char rev[24]; size_t k = 0;
			do { unsigned d = v%base; rev[k++] = d < 10 ? '0'+d : (*p == 'X' ? 'A' : 'a')+d-10; v /= base; } while(v);
			while(prec > 0 && k < (size_t)prec && k < 23) rev[k++] = '0';
			if(prec >= 0) zero = false;
			while(k) tmp[n++] = rev[--k];
			if(alt && base == 16 && *p != 'p') sign = "0x";
		}
		else if(*p == 'f' || *p == 'F' || *p == 'g' || *p == 'e' || *p == 'G' || *p == 'E') {
			double v = va_arg(ap,double);
			n = v_format_float(v,prec < 0 ? 6 : prec,*p,alt,tmp);
			if(tmp[0] == '-') { sign = "-"; body = tmp+1; n--; }
			else if(plus) sign = "+"; else if(space) sign = " ";
		}
		else { v_assert(0,"model: printf conversion not modelled"); return; }
		size_t sl = strlen(sign), pad = (size_t)width > n+sl ? width-n-sl : 0;
		if(!left && !zero) for(; pad; pad--) emit(s,' ');
		for(size_t i = 0; i < sl; i++) emit(s,sign[i]);
		if(!left && zero) for(; pad; pad--) emit(s,'0');
		for(size_t i = 0; i < n; i++) emit(s,body[i]);
		for(; pad; pad--) emit(s,' ');
	}
}
int vfprintf(VFILE* f, const char* fmt, va_list ap) { live(f); struct sink s = { .f = f }; format(&s,fmt,ap); return s.n; }
int fprintf(VFILE* f, const char* fmt, ...) { va_list ap; va_start(ap,fmt); int r = vfprintf(f,fmt,ap); va_end(ap); return r; }
int vprintf(const char* fmt, va_list ap) { return vfprintf(stdout,fmt,ap); }
int printf(const char* fmt, ...) { va_list ap; va_start(ap,fmt); int r = vfprintf(stdout,fmt,ap); va_end(ap); return r; }
int vsnprintf(char* b, size_t n, const char* fmt, va_list ap) { struct sink s = { .buf = b,.cap = n }; format(&s,fmt,ap); if(n) b[s.n < n ? s.n : n-1] = 0; return s.n; }
int snprintf(char* b, size_t n, const char* fmt, ...) { va_list ap; va_start(ap,fmt); int r = vsnprintf(b,n,fmt,ap); va_end(ap); return r; }
int sprintf(char* b, const char* fmt, ...) { va_list ap; va_start(ap,fmt); int r = vsnprintf(b,SIZE_MAX,fmt,ap); va_end(ap); return r; }
int fputc(int c, VFILE* f) { live(f); struct sink s = { .f = f }; emit(&s,c); return (unsigned char)c; }
int putc(int c, VFILE* f) { return fputc(c,f); }
int _IO_putc(int c, VFILE* f) { return fputc(c,f); }
int putchar(int c) { return fputc(c,stdout); }
int fputs(const char* t, VFILE* f) { while(*t) fputc(*t++,f); return 1; }
int puts(const char* t) { fputs(t,stdout); fputc('\n',stdout); return 1; }
size_t fwrite(const void* d, size_t size, size_t n, VFILE* f) { const char* c = d; for(size_t i = 0; i < size*n; i++) fputc(c[i],f); return n; }
void perror(const char* m) { if(m) { fputs(m,stderr); fputs(": ",stderr); } fputs("error\n",stderr); }

/* ---- getopt (operands after the options, as the harnesses pass them) ---- */
char* optarg; int optind = 1, opterr = 1, optopt; static int optpos;
void v_reset_getopt(void) { optind = 1; optpos = 0; }
int getopt(int argc, char* const argv[], const char* spec) {
	optarg = NULL;
	if(!optpos) {
		if(optind >= argc || !argv[optind]) return -1;
		const char* a = argv[optind];
		if(a[0] != '-' || !a[1]) {
			for(int i = optind+1; i < argc; i++) v_assert(argv[i][0] != '-' || !argv[i][1],"model: operands come last");
			return -1;
		}
		if(a[1] == '-' && !a[2]) { optind++; return -1; }
		optpos = 1;
	}
	char c = argv[optind][optpos++];
	const char* o = c == ':' || c == '-' ? NULL : strchr(spec,c);
	bool end = !argv[optind][optpos];
	if(!o) { optopt = c; if(end) { optind++; optpos = 0; } fputs("invalid option\n",stderr); return '?'; }
	if(o[1] == ':') {
		if(!end) optarg = argv[optind]+optpos;
		else if(o[2] != ':') {
			if(++optind >= argc) { optpos = 0; optopt = c; fputs("option requires an argument\n",stderr); return spec[0] == ':' ? ':' : '?'; }
			optarg = argv[optind];
		}
		optind++; optpos = 0;
	}
	else if(end) { optind++; optpos = 0; }
	return c;
}
void vo_begin(void) {}
void vo_sync(void) {}
