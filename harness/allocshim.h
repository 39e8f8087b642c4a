/* Counts live heap blocks of one extension module (force-included before everything else). */
#ifndef SW_SHIM
#define SW_SHIM
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
__attribute__((visibility("default"))) volatile long sw_live = 0;
__attribute__((visibility("default"))) volatile long sw_total = 0;
static inline void *sw_malloc(size_t n) { void *p = malloc(n); if (p) { sw_live++; sw_total++; } return p; }
static inline void *sw_calloc(size_t a, size_t n) { void *p = calloc(a, n); if (p) { sw_live++; sw_total++; } return p; }
static inline void sw_free(void *p) { if (p) sw_live--; free(p); }
static inline void *sw_realloc(void *q, size_t n) {
    void *p = realloc(q, n); if (p && !q) { sw_live++; sw_total++; } if (!p && q && n == 0) sw_live--; return p; }
#define malloc sw_malloc
#define calloc sw_calloc
#define free sw_free
#define realloc sw_realloc
#endif
