/* C01 under concurrency: threads push to one thread-safe timeline; any interleaving. */
#define HARNESS_CLOCK 1
#include "common.h"
#include <pthread.h>
static Out got;
static HT_Timeline* t;
static void on_events(TEventPtr ev, size_t n, HT_Boolean ser, void* ud) { (void)ser; out_mem((Out*)ud, ev, n); }
static void* pusher(void* a)
{
    unsigned me = (unsigned)(uintptr_t)a, k;
    for (k = 0; k < PUSHES; k++)
    {
        HT_CallstackIntEvent e;
        memset(&e, 0, sizeof e);
        HT_EVENT(&e)->klass = HT_EVENT_KLASS_GET(HT_CallstackIntEvent);
        HT_EVENT(&e)->timestamp = 100 * me + k; HT_EVENT(&e)->id = me; e.base.duration = k; e.base.thread_id = me; e.label = 10 * me + k;
        ht_timeline_push_event(t, HT_EVENT(&e));
#ifdef WITH_FLUSH
        if (me == 1) ht_timeline_flush(t);
#endif
    }
    return NULL;
}
void harness(void)
{
    static const unsigned caps[] = {0, 40, 48, 100, 1000};
    pthread_t th[NT];
    unsigned i, k, next[NT + 1] = {0};
    HT_ErrorCode err;
    size_t esz = MODE ? 40 : sizeof(HT_CallstackIntEvent);
    out_init(&got, 2048);
    ht_init(0, NULL);
    t = ht_timeline_create(caps[sym_choice("cap", 5)], HT_TRUE, MODE, NULL, &err);
    sym_check(t != NULL, "timeline is created");
    ht_timeline_register_listener(t, on_events, &got);
    for (i = 0; i < NT; i++) pthread_create(&th[i], NULL, pusher, (void*)(uintptr_t)(i + 1));
    for (i = 0; i < NT; i++) pthread_join(th[i], NULL);
    ht_timeline_destroy(t);
    sym_check(got.n == NT * PUSHES * esz, "every event pushed by every thread arrives exactly once");
    for (k = 0; k < NT * PUSHES; k++)
    {
        uint8_t* p = got.p + k * esz;
        unsigned me, j;
        Out w;
        if (!MODE)
        {
            HT_CallstackIntEvent* e = (HT_CallstackIntEvent*)p;
            me = (unsigned)HT_EVENT(e)->id;
            sym_check(me >= 1 && me <= NT, "an event arrives intact");
            j = next[me]++;
            sym_check(HT_EVENT(e)->klass == HT_EVENT_KLASS_GET(HT_CallstackIntEvent) && HT_EVENT(e)->timestamp == 100 * me + j && e->base.duration == j && e->base.thread_id == me && e->label == 10 * me + j, "events of one thread arrive intact and in order");
            continue;
        }
        me = p[12];
        sym_check(me >= 1 && me <= NT, "an event arrives intact");
        j = next[me]++;
        out_init(&w, 64);
        out_base(&w, HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id, 100 * me + j, me);
        out_le(&w, j, 8); out_le(&w, me, 4); out_le(&w, 10 * me + j, 8);
        sym_check(memcmp(w.p, p, 40) == 0, "events of one thread arrive intact and in order");
    }
    sym_observe("first", got.p[12]);
    ht_deinit();
}
