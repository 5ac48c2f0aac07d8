/* C30 under concurrency: threads create timelines of one group at the same time. */
#define HARNESS_CLOCK 1
#include "common.h"
#include <pthread.h>
static HT_Timeline* t[2];
static unsigned calls, destroyed;
static void on_events(TEventPtr ev, size_t n, HT_Boolean ser, void* ud) { (void)ev; (void)n; (void)ser; (void)ud; calls++; }
static void on_destroy(void* ud) { (void)ud; destroyed++; }
static void* run(void* a)
{
    unsigned me = (unsigned)(uintptr_t)a;
    HT_Timeline* x = ht_timeline_create(0, HT_FALSE, HT_TRUE, "shared", NULL);
    t[me] = x;
#if CHURN
    ht_timeline_destroy(x);
    t[me] = ht_timeline_create(0, HT_FALSE, HT_TRUE, "shared", NULL);
#endif
    return NULL;
}
void harness(void)
{
    pthread_t th[2];
    unsigned i;
    HT_Timeline* keep = NULL;
    ht_allocator_set(ha_realloc, NULL);
    ht_init(0, NULL);
    if (sym_choice("pre", 2)) keep = ht_timeline_create(0, HT_FALSE, HT_TRUE, "shared", NULL);
    for (i = 0; i < 2; i++) pthread_create(&th[i], NULL, run, (void*)(uintptr_t)i);
    for (i = 0; i < 2; i++) pthread_join(th[i], NULL);
    sym_check(t[0] && t[1], "timelines are created");
    ht_timeline_register_listener_full(t[0], on_events, NULL, on_destroy);
    HT_TIMELINE_PUSH_EVENT(t[1], HT_StringMappingEvent, 1, "x");
    sym_check(calls == 1, "timelines of one group share listeners, whichever thread created them first");
    ht_timeline_destroy(t[0]); ht_timeline_destroy(t[1]);
    if (keep) ht_timeline_destroy(keep);
    sym_check(destroyed == 0, "listeners of a named group outlive its timelines");
    ht_deinit();
    sym_check(destroyed == 1, "every listener is destroyed exactly once");
    sym_check(ha_live == 0, "everything is released");
}
