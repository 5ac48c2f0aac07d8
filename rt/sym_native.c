/* Native replay: sym_* read concrete values from the file named by SYM_INPUT; scheduling primitives
 * drive real threads, one at a time, along the recorded schedule. */
#define _GNU_SOURCE
#include "../include/sym.h"
#include "eng.h"
#include <dlfcn.h>
#include <malloc.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>

#define MAXT 32
static struct { char name[64]; unsigned long long v; } *ins;
static size_t nin, pin;
static struct { char k; unsigned tid; unsigned long long ev; unsigned to; } *sch;
static size_t nsch, psch;

static void die(int code, const char* what, const char* arg)
{
    fflush(stdout);
    fprintf(stdout, "%s %s\n", what, arg ? arg : "");
    fflush(stdout);
    _exit(code);
}
static void load(void)
{
    const char* fn = getenv("SYM_INPUT");
    char line[256];
    FILE* f;
    size_t ci = 0, cs = 0;
    if (!fn || !(f = fopen(fn, "r"))) die(79, "SYM_NOINPUT", fn);
    while (fgets(line, sizeof line, f))
    {
        char nm[64]; unsigned long long v, ev; char k; unsigned a, b;
        if (sscanf(line, "in %63s %llu", nm, &v) == 2)
        {
            if (nin == ci) { ci = ci ? ci * 2 : 64; ins = realloc(ins, ci * sizeof *ins); }
            strcpy(ins[nin].name, nm); ins[nin].v = v; nin++;
        }
        else if (sscanf(line, "sched %c %u %llu %u", &k, &a, &ev, &b) == 4)
        {
            if (nsch == cs) { cs = cs ? cs * 2 : 64; sch = realloc(sch, cs * sizeof *sch); }
            sch[nsch].k = k; sch[nsch].tid = a; sch[nsch].ev = ev; sch[nsch].to = b; nsch++;
        }
    }
    fclose(f);
}
static uint64_t next(const char* name)
{
    if (pin >= nin) die(79, "SYM_INPUT_END", name);
    if (strcmp(ins[pin].name, name)) die(79, "SYM_INPUT_MISMATCH", name);
    return ins[pin++].v;
}
uint8_t sym_u8(const char* n) { return (uint8_t)next(n); }
uint16_t sym_u16(const char* n) { return (uint16_t)next(n); }
uint32_t sym_u32(const char* n) { return (uint32_t)next(n); }
uint64_t sym_u64(const char* n) { return next(n); }
uint64_t sym_range(const char* n, uint64_t lo, uint64_t hi)
{
    uint64_t v = next(n);
    if (v < lo || v > hi) die(78, "SYM_ASSUME", n);
    return v;
}
uint32_t sym_choice(const char* n, uint32_t k)
{
    uint64_t v = next(n);
    if (v >= k) die(78, "SYM_ASSUME", n);
    return (uint32_t)v;
}
void sym_bytes(void* p, size_t n, const char* name) { size_t i; for (i = 0; i < n; i++) ((uint8_t*)p)[i] = (uint8_t)next(name); }
void sym_assume(int c) { if (!c) die(78, "SYM_ASSUME", ""); }
void sym_check_(int c, const char* msg) { if (!c) die(77, "SYM_CHECK_FAIL", msg); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_observe(const char* n, uint64_t v) { printf("obs %s %llu\n", n, (unsigned long long)v); }
void sym_reached(const char* n) { (void)n; }
int sym_is_engine(void) { return 0; }
void sym_silent_exit(void) { die(0, "SYM_SILENT_EXIT", ""); }
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
size_t __sanitizer_get_current_allocated_bytes(void);
#define HAVE_ASAN 1
#endif
#endif
#ifdef HAVE_ASAN
uint64_t sym_heap_live(void) { return __sanitizer_get_current_allocated_bytes(); }
#else
uint64_t sym_heap_live(void) { return mallinfo2().uordblks; }
#endif

/* ------------------------------------------------------------ scheduler */
static __thread uint32_t self_id;
static unsigned nthreads = 1;
static sem_t sems[MAXT];
static enum { RUN, BLK, DONE } status[MAXT];
static const void* bkey[MAXT];
static unsigned long long ev[MAXT];

uint32_t __eng_self(void) { return self_id; }
void __eng_fail(const char* msg) { die(81, "SYM_SYNC_FAIL", msg); }

static void pass(unsigned to, int wait)
{
    uint32_t me = self_id;
    if (to == me) return;
    sem_post(&sems[to]);
    if (wait) while (sem_wait(&sems[me])) ;
}
static void point(void)
{
    uint32_t me = self_id;
    ev[me]++;
    if (psch < nsch && sch[psch].k == 'p' && sch[psch].tid == me && sch[psch].ev == ev[me])
    {
        unsigned to = sch[psch++].to;
        if (to < nthreads && status[to] == RUN) pass(to, 1);
    }
}
void __eng_yield(void) { point(); }
void __eng_access(const void* p, uint64_t size, uint32_t w) { (void)p; (void)size; (void)w; point(); }
static void switch_blocked(int wait)
{
    uint32_t me = self_id;
    unsigned i, to = MAXT;
    if (psch < nsch && sch[psch].k == 'b' && sch[psch].tid == me) to = sch[psch++].to;
    if (to >= nthreads || status[to] != RUN)
    {
        to = MAXT;
        for (i = 0; i < nthreads; i++) if (status[i] == RUN) { to = i; break; }
    }
    if (to == MAXT) die(80, "SYM_DEADLOCK", "no thread can make progress");
    pass(to, wait);
}
void __eng_block(const void* key)
{
    status[self_id] = BLK;
    bkey[self_id] = key;
    switch_blocked(1);
}
void __eng_wake(const void* key, uint32_t all)
{
    unsigned i, cnt = 0, first = MAXT;
    for (i = 0; i < nthreads; i++) if (status[i] == BLK && bkey[i] == key) { cnt++; if (first == MAXT) first = i; if (all) status[i] = RUN; }
    if (!all && cnt)
    {
        if (cnt > 1 && psch < nsch && sch[psch].k == 'w' && sch[psch].tid == self_id) first = sch[psch++].to;
        status[first] = RUN;
    }
}
struct sp { void (*fn)(void*); void* arg; unsigned id; };
static void* tmain(void* p)
{
    struct sp s = *(struct sp*)p;
    free(p);
    self_id = s.id;
    while (sem_wait(&sems[self_id])) ;
    s.fn(s.arg);
    status[self_id] = DONE;
    switch_blocked(0);
    for (;;) pause();
    return 0;
}
#ifdef HAVE_ASAN
int __interceptor_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
#endif
uint32_t __eng_spawn(void (*fn)(void*), void* arg)
{
    unsigned id = nthreads++;
    pthread_t t;
    struct sp* s = malloc(sizeof *s);
    s->fn = fn; s->arg = arg; s->id = id;
    sem_init(&sems[id], 0, 0);
    status[id] = RUN;
#ifdef HAVE_ASAN
    if (__interceptor_pthread_create(&t, 0, tmain, s)) die(79, "SYM_SPAWN", "");
#else
    {
        int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
        if (real(&t, 0, tmain, s)) die(79, "SYM_SPAWN", "");
    }
#endif
    return id;
}
static void* warm(void* p) { return p; }
int main(void)
{
    static char outbuf[65536];
    setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf); /* no allocation of its own while the code under test runs */
    {
        /* the C library keeps the first thread's descriptor for reuse: get that over with */
        pthread_t t;
        int (*real)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*) = (int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*))dlsym(RTLD_NEXT, "pthread_create");
        int (*realj)(pthread_t, void**) = (int (*)(pthread_t, void**))dlsym(RTLD_NEXT, "pthread_join");
        if (real && realj && !real(&t, 0, warm, 0)) realj(t, 0);
    }
    sem_init(&sems[0], 0, 0);
    load();
    harness();
    fflush(stdout);
    die(0, "SYM_DONE", "");
    return 0;
}
