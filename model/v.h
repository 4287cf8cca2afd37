/* Harness interface.  Under the symbolic executor every nd_*() is a fresh unconstrained value and
 * v_assert goes to the solver; in a native replay build nd_*() reads the counterexample back in order. */
#ifndef V_H
#define V_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

uint8_t nd_u8(void); uint16_t nd_u16(void); uint32_t nd_u32(void); uint64_t nd_u64(void);
float nd_unit(void);   /* any number in [-1,1], for code linear in it (affine jobs only) */
int32_t nd_i32(void); float nd_f32(void); double nd_f64(void);
uint32_t nd_choice(uint32_t lo, uint32_t hi);   /* any value in [lo,hi]; every value gets its own path */
void v_assert(int c, const char* what);
void v_assume(int c);
void v_witness(const char* what);               /* must be reached on some path */
void v_cover(int c, const char* what);          /* some input must make c true here */
uint64_t v_concretize(uint64_t x);              /* explore every feasible value separately */
int v_valid(const void* p, size_t n);           /* [p,p+n) is inside a live object (natively: 1) */
int v_writable(const void* p, size_t n);        /* replay: write the block through (sanitizer decides) */
void* v_readonly(void* p, size_t n);             /* no later write to the object; replay: a copy in read-only pages */
void v_end_path(void);                          /* stop exploring this path: property not concerned */
int v_symbolic(void);                           /* 1 under the executor, 0 natively */

#define VASSERT(c,msg) v_assert(!!(c),msg)
#define VASSUME(c) v_assume(!!(c))
#define VWITNESS(msg) v_witness(msg)
#define VCOVER(c,msg) v_cover(!!(c),msg)

static inline bool nd_bool(void) { return nd_u8() & 1; }
static inline uint32_t nd_range(uint32_t lo, uint32_t hi) { uint32_t v = nd_u32(); v_assume(v >= lo && v <= hi); return v; }

/* environment: allocation */
extern int vm_fail;               /* 0: allocations succeed; 1: any may fail (symbolically chosen) */
extern unsigned vm_fail_budget;   /* at most this many failures */
extern unsigned vm_failures;      /* failures injected so far */
extern long vm_live;              /* blocks and streams not yet released */
extern size_t vm_limit;           /* larger requests always fail */
extern size_t vm_biggest;         /* largest request so far */
int v_injected_failure(void);     /* another fallible environment call drawing on the same budget */

/* environment: the one readable file (any other name: ENOENT); "-" stands for standard input */
void vf_file(const char* name, const unsigned char* data, size_t size, bool seekable);
extern size_t vf_io_error_at;     /* reads at or past this offset fail with EIO */
extern int vf_open_count, vf_close_count, vf_stdin_closed;
size_t vf_tell(void);             /* bytes of the file consumed so far by the current stream */

/* environment: captured output (command-line tools); vo_begin before, vo_sync after the run */
extern char vo_buf[], ve_buf[]; extern size_t vo_len, vo_err;   /* stdout text; bytes written to stderr */
void vo_begin(void), vo_sync(void), v_reset_getopt(void);
#endif
