/* replay of shared-state jobs: the library's static variables go into sections of their own (see protect.c) */
#pragma clang section bss="vshared_b" data="vshared_d"
