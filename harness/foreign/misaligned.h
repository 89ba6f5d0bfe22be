// an access with the wrong alignment is an exception on the processors the
// stand-ins replace
#ifndef VERIF_MISALIGNED_H
#define VERIF_MISALIGNED_H
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
extern "C" void verif_misaligned(const char *what, unsigned n) __attribute__((noreturn));
static inline void verif_aligned(const void *p, unsigned n, const char *what) { if ((uintptr_t)p % n) verif_misaligned(what, n); }
#endif
