/* C24: allocation hooks see every heap operation and change none. */
#include "sym.h"
#include <hawktracer/alloc_hooks.h>
#include <stdlib.h>
#include <string.h>
void* hooked_malloc(size_t); void* hooked_calloc(size_t, size_t); void* hooked_realloc(void*, size_t); void hooked_free(void*);
enum { M, C, R, F };
typedef struct { int when, op; const void* ret; const void* ptr; size_t num, size; void* ud; } Rec; /* when: 0 before, 1 the operation itself, 2 after */
static Rec rec[64];
static unsigned nrec;
static char heap[8], ud_a, ud_b;
static void* const uds[] = {&ud_a, &ud_b, 0};
static void* result; /* what the real function gives */
static int nested;   /* what hooks do themselves */
static void add(int when, int op, const void* ret, const void* ptr, size_t num, size_t size, void* ud)
{
    Rec r = {when, op, ret, ptr, num, size, ud};
    sym_check(nrec < 64, "hooks do not recurse");
    rec[nrec++] = r;
}
void* hs___libc_malloc(size_t s) { add(1, M, result, 0, 0, s, 0); return result; }
void* hs___libc_calloc(size_t n, size_t s) { add(1, C, result, 0, n, s, 0); return result; }
void* hs___libc_realloc(void* p, size_t s) { add(1, R, result, p, 0, s, 0); return result; }
void hs___libc_free(void* p) { add(1, F, 0, p, 0, 0, 0); }
static void own(int when) /* a hook may allocate without being called again */
{
    unsigned n = nrec;
    void* keep = result;
    result = heap + 6;
    if (nested == 1) sym_check(ht_alloc_hooks_malloc_skip_hook(3) == heap + 6, "memory for hooks is memory");
    if (nested == 2) sym_check(ht_alloc_hooks_calloc_skip_hook(2, 3) == heap + 6, "memory for hooks is memory");
    if (nested == 3) sym_check(ht_alloc_hooks_realloc_skip_hook(heap + 5, 9) == heap + 6, "memory for hooks is memory");
    if (nested == 4) ht_alloc_hooks_free_skip_hook(heap + 5);
    if (nested)
    {
        const Rec* r = &rec[n];
        sym_check(nrec == n + 1 && r->when == 1 && r->op == nested - 1, "operations without hooks call no hook");
        sym_check(nested == 1 ? r->size == 3 : nested == 2 ? r->num == 2 && r->size == 3 : r->ptr == heap + 5, "operations without hooks are passed on unchanged");
        sym_check(nested != 3 || r->size == 9, "operations without hooks are passed on unchanged");
        nrec = n;
    }
    result = keep;
    (void)when;
}
static void pre_m(void* r, size_t s, void* u) { add(0, M, r, 0, 0, s, u); own(0); }
static void post_m(void* r, size_t s, void* u) { add(2, M, r, 0, 0, s, u); own(2); }
static void pre_c(void* r, size_t n, size_t s, void* u) { add(0, C, r, 0, n, s, u); own(0); }
static void post_c(void* r, size_t n, size_t s, void* u) { add(2, C, r, 0, n, s, u); own(2); }
static void pre_r(void* r, void* p, size_t s, void* u) { add(0, R, r, p, 0, s, u); own(0); }
static void post_r(void* r, void* p, size_t s, void* u) { add(2, R, r, p, 0, s, u); own(2); }
static void pre_f(void* p, void* u) { add(0, F, 0, p, 0, 0, u); own(0); }
static void post_f(void* p, void* u) { add(2, F, 0, p, 0, 0, u); own(2); }
void harness(void)
{
    unsigned op, mask = 0, i;
    void* ud = 0;
    for (op = 0; op < OPS; op++)
    {
        unsigned what = sym_choice("op", 6), before;
        if (what >= 4) /* registering replaces all hooks */
        {
            mask = what == 4 ? sym_choice("mask", 256) : 0;
            ud = uds[sym_choice("ud", 3)];
            ht_alloc_hooks_register_hooks(mask & 1 ? pre_m : 0, mask & 2 ? post_m : 0, mask & 4 ? pre_c : 0, mask & 8 ? post_c : 0,
                                          mask & 16 ? pre_r : 0, mask & 32 ? post_r : 0, mask & 64 ? pre_f : 0, mask & 128 ? post_f : 0, ud);
            continue;
        }
        size_t n = sym_u64("n"), s = sym_u64("s");
        void *p = sym_choice("null", 2) ? 0 : heap + 1, *r = 0;
        result = sym_choice("fails", 2) ? 0 : heap + 2;
        nested = (int)sym_choice("nested", 5);
        before = nrec = 0;
        switch (what)
        {
        case M: r = hooked_malloc(s); break;
        case C: r = hooked_calloc(n, s); break;
        case R: r = hooked_realloc(p, s); break;
        default: hooked_free(p);
        }
        i = before;
        for (int when = 0; when < 3; when++)
        {
            if (when != 1 && !(mask >> (what * 2 + when / 2) & 1)) continue;
            sym_check(i < nrec && rec[i].when == when && rec[i].op == (int)what, "an operation calls its hook before, is done once, and calls its hook after");
            sym_check(rec[i].size == (what == F ? 0 : s) && rec[i].num == (what == C ? n : 0), "hooks and the operation get the sizes asked for");
            sym_check(rec[i].ptr == (what == R || what == F ? p : 0), "hooks and the operation get the block given");
            sym_check(rec[i].ret == (when == 0 || what == F ? 0 : result), "hooks see the result afterwards");
            if (when != 1) sym_check(rec[i].ud == ud, "hooks get their user data");
            i++;
        }
        sym_check(i == nrec, "no other hook and no other operation");
        if (what != F) sym_check(r == result, "the result is that of the operation");
    }
    sym_observe("mask", mask);
    sym_reached("done");
}
