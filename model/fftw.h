#ifndef VFFTW_H
#define VFFTW_H
#include "v.h"
#include "resdet_internal.h"
/* called by the FFTW stand-in's execute: fill f[0..n) with the transform of whatever is there */
extern void (*vfft_fill)(coeff* f, size_t n);
extern coeff* vfft_buf; extern size_t vfft_n; extern int vfft_w, vfft_h; extern unsigned vfft_execs, vfft_plans, vfft_destroyed;
extern int vfft_plan_may_fail;
#endif
