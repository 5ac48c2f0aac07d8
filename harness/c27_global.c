/* C27: every thread has its own global timeline; all of them feed the same listeners; nothing is lost when a thread ends. */
#define HARNESS_CLOCK 1
#include "common.h"
#include <hawktracer/global_timeline.h>
#include <internal/global_timeline.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/feature_cached_string.h>
#include <pthread.h>
static HT_Timeline* tl[NT + 1];
static Out got[2];
static size_t bufsize;
static pthread_mutex_t mtx = PTHREAD_MUTEX_INITIALIZER;
static const char labels[NT + 1][4] = {"aa", "bb", "cc"};
static void on_events(TEventPtr ev, size_t n, HT_Boolean ser, void* ud)
{
    pthread_mutex_lock(&mtx);
    sym_check(ser, "global timelines deliver serialized events");
    sym_check(n <= 40 || n <= bufsize, "no more is buffered than the size set for global timelines");
    out_mem((Out*)ud, ev, n);
    pthread_mutex_unlock(&mtx);
}
static void work(unsigned me)
{
    unsigned k;
    HT_Timeline* t = ht_global_timeline_get();
    sym_check(t != NULL, "a thread has a global timeline");
    tl[me] = t;
    for (k = 0; k < PUSHES; k++)
    {
        ht_feature_callstack_start_int(ht_global_timeline_get(), 16 * (me + 1) + k);
        ht_feature_callstack_stop(ht_global_timeline_get());
    }
    sym_check(ht_feature_cached_string_add_mapping(ht_global_timeline_get(), labels[me]) == (uintptr_t)labels[me], "labels can be mapped on a global timeline");
    sym_check(ht_global_timeline_get() == t, "a thread keeps its global timeline");
}
static void* run(void* a) { work((unsigned)(uintptr_t)a); return NULL; }
void harness(void)
{
    static const unsigned sizes[] = {0, 40, 1024};
    pthread_t th[NT];
    unsigned i, j, k, l, next[NT + 1];
    out_init(&got[0], 1024); out_init(&got[1], 1024);
    ht_init(0, NULL);
    bufsize = sizes[sym_choice("size", 3)];
    ht_global_timeline_set_buffer_size(bufsize);
    ht_timeline_register_listener(ht_global_timeline_get(), on_events, &got[0]);
    ht_timeline_register_listener(ht_global_timeline_get(), on_events, &got[1]);
    for (i = 0; i < NT; i++) pthread_create(&th[i], NULL, run, (void*)(uintptr_t)i);
    if (WITH_MAIN) work(NT);
    for (i = 0; i < NT; i++) pthread_join(th[i], NULL);
    ht_timeline_flush(ht_global_timeline_get());
    for (i = 0; i < NT + WITH_MAIN; i++) for (j = 0; j < i; j++) sym_check(tl[i] != tl[j], "threads do not share a global timeline");
    for (l = 0; l < 2; l++)
    {
        sym_check(got[l].n == (NT + WITH_MAIN) * (PUSHES * 40 + 31), "every event of every thread reaches every listener, also of ended threads");
        unsigned maps = 0;
        memset(next, 0, sizeof next);
        for (k = 0; k < got[l].n; k += 40)
        {
            HT_EventKlassId id;
            memcpy(&id, got[l].p + k, 4);
            if (id == ht_HT_StringMappingEvent_get_event_klass_instance()->klass_id) { k -= 9; maps++; continue; }
            uint64_t label = 0;
            unsigned me;
            for (i = 0; i < 8; i++) label |= (uint64_t)got[l].p[k + 32 + i] << (8 * i);
            me = (unsigned)(label / 16) - 1;
            sym_check(me <= NT && label % 16 == next[me], "events of a thread arrive intact and in order");
            next[me]++;
        }
        sym_check(maps == NT + WITH_MAIN, "every label mapped arrives");
    }
    sym_observe("first", got[0].p[32]);
    ht_timeline_unregister_all_listeners(ht_global_timeline_get());
}
