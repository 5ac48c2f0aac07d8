/* C06: event ids. */
#define HARNESS_CLOCK 1
#include "common.h"
#include <hawktracer/event_id_provider.h>
#include <pthread.h>
static HT_EventIdProvider* p;
static uint64_t ids[3][CALLS];
static int mode;
static void* run(void* a)
{
    unsigned me = (unsigned)(uintptr_t)a, k;
    HT_Timeline* t = mode ? ht_timeline_create(64, HT_FALSE, HT_TRUE, NULL, NULL) : NULL;
    for (k = 0; k < CALLS; k++)
    {
        if (!mode) ids[me][k] = ht_event_id_provider_next(p);
        else
        {
            HT_DECL_EVENT(HT_Event, e);
            ht_timeline_init_event(t, &e);
            ids[me][k] = e.id;
        }
    }
    if (t) ht_timeline_destroy(t);
    return NULL;
}
void harness(void)
{
    pthread_t th[NT];
    unsigned i, k, j;
    uint64_t first;
    ht_init(0, NULL);
    mode = (int)sym_choice("mode", 3);
    p = mode == 0 ? ht_event_id_provider_create() : ht_event_id_provider_get_default();
    if (mode == 0) sym_check(ht_event_id_provider_next(p) == 0, "a new provider starts from 0");
    if (mode == 2) mode = 0;
    first = ht_event_id_provider_next(p);
    for (i = 0; i < NT; i++) pthread_create(&th[i], NULL, run, (void*)(uintptr_t)i);
    for (i = 0; i < NT; i++) pthread_join(th[i], NULL);
    for (i = 0; i < NT; i++) for (k = 0; k < CALLS; k++)
    {
        sym_check(ids[i][k] > first, "ids grow");
        if (k) sym_check(ids[i][k] > ids[i][k - 1], "ids grow within a thread");
        for (j = 0; j < i; j++) { unsigned m; for (m = 0; m < CALLS; m++) sym_check(ids[i][k] != ids[j][m], "no two events share an id"); }
    }
    sym_check(ht_event_id_provider_next(p) == first + NT * CALLS + 1, "every call advances the sequence by one");
    sym_observe("a", ids[0][0]);
    ht_deinit();
}
