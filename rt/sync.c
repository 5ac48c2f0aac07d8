/* pthread semantics on top of the scheduling primitives of eng.h. Used unchanged by the symbolic
 * executor (linked as bitcode) and by native replays (overrides libc's symbols in the executable),
 * so both agree on what a lock, a wait and a wake-up do. */
#include "eng.h"
#include <stddef.h>
#include <stdlib.h>

typedef struct { uint32_t owner; uint32_t count; uint32_t kind; uint32_t magic; } M; /* fits pthread_mutex_t */
#define MAXT 32
char __libc_single_threaded = 0; /* shared_ptr counts with atomic operations in both worlds */

static void acquire(M* m, uint32_t me)
{
    while (m->owner) __eng_block(m);
    m->owner = me;
    m->count = 1;
}
static void release(M* m)
{
    m->owner = 0;
    m->count = 0;
    __eng_wake(m, 1);
}

int pthread_mutex_init(void* mp, const void* attr)
{
    M* m = (M*)mp;
    m->owner = 0; m->count = 0; m->magic = 0;
    m->kind = attr ? (*(const uint32_t*)attr & 3u) : 0;
    return 0;
}
int pthread_mutexattr_init(void* a) { *(uint32_t*)a = 0; return 0; }
int pthread_mutexattr_settype(void* a, int kind) { *(uint32_t*)a = (uint32_t)kind; return 0; }
int pthread_mutexattr_destroy(void* a) { (void)a; return 0; }

int pthread_mutex_destroy(void* mp)
{
    M* m = (M*)mp;
    if (m->owner) __eng_fail("mutex destroyed while locked");
    return 0;
}
int pthread_mutex_lock(void* mp)
{
    M* m = (M*)mp;
    uint32_t me = __eng_self() + 1;
    __eng_yield();
    if (m->owner == me)
    {
        if (m->kind == 1) { m->count++; return 0; }
        __eng_fail("deadlock: a thread locks a mutex it already holds");
    }
    acquire(m, me);
    return 0;
}
int pthread_mutex_trylock(void* mp)
{
    M* m = (M*)mp;
    uint32_t me = __eng_self() + 1;
    __eng_yield();
    if (m->owner)
    {
        if (m->owner == me && m->kind == 1) { m->count++; return 0; }
        return 16; /* EBUSY */
    }
    m->owner = me; m->count = 1;
    return 0;
}
int pthread_mutex_unlock(void* mp)
{
    M* m = (M*)mp;
    uint32_t me = __eng_self() + 1;
    __eng_yield();
    if (m->owner != me) __eng_fail("a thread unlocks a mutex it does not hold");
    if (m->kind == 1 && --m->count) return 0;
    release(m);
    return 0;
}
int pthread_cond_init(void* c, const void* a) { (void)c; (void)a; return 0; }
int pthread_cond_destroy(void* c) { (void)c; return 0; }
int pthread_cond_wait(void* c, void* mp)
{
    M* m = (M*)mp;
    uint32_t me = __eng_self() + 1;
    __eng_yield();
    if (m->owner != me) __eng_fail("condition wait without holding the mutex");
    release(m);
    __eng_block(c);
    acquire(m, me);
    return 0;
}
static int timed(void* c, void* mp)
{
    M* m = (M*)mp;
    uint32_t me = __eng_self() + 1;
    (void)c;
    release(m);
    __eng_yield();
    acquire(m, me);
    return 110; /* ETIMEDOUT */
}
int pthread_cond_timedwait(void* c, void* m, const void* t) { (void)t; return timed(c, m); }
int pthread_cond_clockwait(void* c, void* m, int clk, const void* t) { (void)clk; (void)t; return timed(c, m); }
int pthread_cond_signal(void* c) { __eng_yield(); __eng_wake(c, 0); return 0; }
int pthread_cond_broadcast(void* c) { __eng_yield(); __eng_wake(c, 1); return 0; }

/* ---- thread-exit actions: C++ thread_local destructors, then pthread keys */
struct dtor { void (*fn)(void*); void* obj; struct dtor* next; };
static struct dtor* dtors[MAXT];
int __cxa_thread_atexit(void (*fn)(void*), void* obj, void* dso)
{
    struct dtor* d = (struct dtor*)malloc(sizeof *d);
    uint32_t me = __eng_self();
    (void)dso;
    d->fn = fn; d->obj = obj; d->next = dtors[me];
    dtors[me] = d;
    return 0;
}
#define MAXK 8
static void (*key_dtor[MAXK])(void*);
static unsigned nkeys;
static void* key_val[MAXT][MAXK];
int pthread_key_create(uint32_t* k, void (*d)(void*)) { *k = nkeys; key_dtor[nkeys++] = d; return 0; }
int pthread_setspecific(uint32_t k, const void* v) { key_val[__eng_self()][k] = (void*)v; return 0; }
void* pthread_getspecific(uint32_t k) { return key_val[__eng_self()][k]; }
int pthread_once(int* once, void (*fn)(void)) { if (*once != 2) { *once = 2; fn(); } return 0; }

void rt_run_thread_exit(void)
{
    uint32_t me = __eng_self();
    unsigned i;
    while (dtors[me])
    {
        struct dtor* d = dtors[me];
        dtors[me] = d->next;
        d->fn(d->obj);
        free(d);
    }
    for (i = 0; i < nkeys; i++)
        if (key_val[me][i] && key_dtor[i])
        {
            void* v = key_val[me][i];
            key_val[me][i] = NULL;
            key_dtor[i](v);
        }
}

/* handles as glibc gives them: never 0 */
#define HANDLE(id) ((unsigned long)(id) * 256 + 0x7f0000000100ul)
#define ID(handle) (((handle) - 0x7f0000000100ul) / 256)
struct start { void* (*fn)(void*); void* arg; };
static uint32_t done[MAXT];
static void* result[MAXT];
static void thread_main(void* p)
{
    struct start s = *(struct start*)p;
    uint32_t me = __eng_self();
    free(p);
    result[me] = s.fn(s.arg);
    rt_run_thread_exit();
    done[me] = 1;
    __eng_wake(&done[me], 1);
}
int pthread_create(unsigned long* t, const void* attr, void* (*fn)(void*), void* arg)
{
    struct start* s = (struct start*)malloc(sizeof *s);
    (void)attr;
    s->fn = fn; s->arg = arg;
    *t = HANDLE(__eng_spawn(thread_main, s));
    __eng_yield();
    return 0;
}
unsigned long pthread_self(void) { return HANDLE(__eng_self()); }
int pthread_join(unsigned long t, void** r)
{
    __eng_yield();
    t = ID(t);
    if (t == __eng_self()) return 35; /* EDEADLK */
    while (!done[t]) __eng_block(&done[t]);
    if (r) *r = result[t];
    return 0;
}
int pthread_detach(unsigned long t) { (void)t; return 0; }
