/* Shared pieces of the harnesses for the C library. */
#ifndef HARNESS_COMMON_H
#define HARNESS_COMMON_H
#include "sym.h"
#include <hawktracer.h>
#include <hawktracer/alloc.h>
#include <hawktracer/core_events.h>
#include <hawktracer/timeline.h>
#include <hawktracer/timeline_listener.h>
#include <hawktracer/init.h>
#include <hawktracer/registry.h>
#include <stdlib.h>
#include <string.h>

/* ---------------------------------------------------------------- reference packer (independent of the library) */
typedef struct { uint8_t* p; size_t n, cap; } Out;
static void out_init(Out* o, size_t cap) { o->p = (uint8_t*)malloc(cap ? cap : 1); o->n = 0; o->cap = cap; }
static void out_byte(Out* o, uint8_t b)
{
    sym_check(o->n < o->cap, "harness: more bytes than any correct run can produce");
    o->p[o->n++] = b;
}
static void out_le(Out* o, uint64_t v, unsigned n) { unsigned i; for (i = 0; i < n; i++) out_byte(o, (uint8_t)(v >> (8 * i))); }
static void out_str(Out* o, const char* s) { size_t i; if (s) for (i = 0; s[i]; i++) out_byte(o, (uint8_t)s[i]); out_byte(o, 0); }
static void out_mem(Out* o, const void* p, size_t n)
{
    sym_check(n <= o->cap - o->n, "harness: more bytes than any correct run can produce");
    if (n) memcpy(o->p + o->n, p, n);
    o->n += n;
}
static void out_base(Out* o, uint32_t klass, uint64_t ts, uint64_t id) { out_le(o, klass, 4); out_le(o, ts, 8); out_le(o, id, 8); }
static int same(const Out* a, const Out* b, size_t from, size_t to) { return from >= to || memcmp(a->p + from, b->p + from, to - from) == 0; }
static void check_same(const Out* got, const Out* want, const char* len_msg, const char* data_msg)
{
    sym_check(got->n == want->n, len_msg);
    sym_check(same(got, want, 0, want->n), data_msg);
}

/* ---------------------------------------------------------------- symbolic C string of chosen length */
static char* sym_cstr(unsigned len)
{
    char* s = (char*)malloc(len + 1);
    unsigned i;
    for (i = 0; i < len; i++) { s[i] = (char)sym_u8("ch"); sym_assume(s[i] != 0); }
    s[len] = 0;
    return s;
}

/* ---------------------------------------------------------------- counting allocator with an injected failure */
static long ha_live, ha_calls, ha_fail_at = -1, ha_failed;
static size_t ha_bytes;
static void* ha_realloc(void* ptr, size_t size, void* ud)
{
    void* r;
    (void)ud;
    if (size == 0 && ptr) { __atomic_sub_fetch(&ha_live, 1, 5); free(ptr); return NULL; }
    if (__atomic_fetch_add(&ha_calls, 1, 5) == ha_fail_at) { ha_failed++; return NULL; }
    if (!ptr) { r = malloc(size); __atomic_add_fetch(&ha_live, 1, 5); }
    else r = realloc(ptr, size);
    return r;
}

/* ---------------------------------------------------------------- clock */
#ifdef HARNESS_CLOCK
/* every reading is an arbitrary value not smaller than the previous one (CLOCK_ARBITRARY: any value) */
static uint64_t hc_last, hc_reads;
#if HARNESS_CLOCK == 3
static uint64_t hc_next(void) { hc_reads++; return hc_last; } /* moves only when the harness moves it */
#elif HARNESS_CLOCK == 1
static uint64_t hc_next(void) { hc_reads++; return hc_last += 10; }
#else
static uint64_t hc_next(void)
{
    uint64_t d = sym_u32("tick");
    hc_reads++;
    return hc_last += d;
}
#endif
#ifdef __cplusplus
extern "C" {
#endif
int64_t hs__ZNSt6chrono3_V212steady_clock3nowEv(void) { return (int64_t)hc_next(); }
/* the wall clock is set by anyone to anything: it says nothing about time passing */
int64_t hs__ZNSt6chrono3_V212system_clock3nowEv(void) { return 5; }
int hs_clock_gettime(int clk, int64_t* ts) { uint64_t v = clk == 1 || clk == 4 || clk == 7 ? hc_next() : 5; ts[0] = (int64_t)(v / 1000000000u); ts[1] = (int64_t)(v % 1000000000u); return 0; }
#ifdef __cplusplus
}
#endif
#endif
#endif
