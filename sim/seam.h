/* Force-included into every CAL source: routes every allocation, break and
   process-exit request to the simulator. */
#ifndef SIM_SEAM_H
#define SIM_SEAM_H
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#ifdef __cplusplus
extern "C" {
#endif
void *sim_malloc(size_t n);
void *sim_calloc(size_t n, size_t m);
void *sim_realloc(void *p, size_t n);
void  sim_free(void *p);
char *sim_strndup(const char *s, size_t n);
void *sim_aligned_alloc(size_t a, size_t n);
int   sim_posix_memalign(void **out, size_t a, size_t n);
void *sim_sbrk(intptr_t n);
void  sim_exit(int code) __attribute__((noreturn));
#ifdef __cplusplus
}
#endif
#ifndef SIM_NO_REDIRECT
#define malloc(n) sim_malloc(n)
#define calloc(n, m) sim_calloc(n, m)
#define realloc(p, n) sim_realloc(p, n)
#define free(p) sim_free(p)
#define aligned_alloc(a, n) sim_aligned_alloc(a, n)
#define posix_memalign(o, a, n) sim_posix_memalign(o, a, n)
#define memalign(a, n) sim_aligned_alloc(a, n)
#define reallocarray(p, n, m) sim_realloc(p, (n) * (m))
#undef strdup
#undef strndup
#define strdup(s) sim_strndup(s, (size_t)-1)
#define strndup(s, n) sim_strndup(s, n)
#define sbrk(n) sim_sbrk(n)
#define exit(c) sim_exit(c)
#endif
#endif
