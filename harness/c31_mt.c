/* C31: two threads adding the same labels to a thread-safe timeline announce each label exactly once. */
#define HARNESS_CLOCK 1
#include "common.h"
#include <hawktracer/feature_cached_string.h>
#include <pthread.h>
static Out got;
static HT_Timeline* t;
static uint64_t sid[2], did[2], did2[2];
static unsigned mix;
static void on_events(TEventPtr ev, size_t n, HT_Boolean ser, void* ud) { (void)ud; (void)ser; out_mem(&got, ev, n); }
static const char* const lab = "static";
static void* run(void* a)
{
    unsigned me = (unsigned)(uintptr_t)a;
    if (mix == 0) did[me] = ht_feature_cached_string_add_mapping_dynamic(t, "dyn");
    else if (mix == 1) sid[me] = ht_feature_cached_string_add_mapping(t, lab);
    else if (me == 0) { did[0] = did[1] = ht_feature_cached_string_add_mapping_dynamic(t, "dyn"); }
    else { sid[0] = sid[1] = ht_feature_cached_string_add_mapping(t, lab); did2[0] = did2[1] = ht_feature_cached_string_add_mapping_dynamic(t, "other"); }
    return NULL;
}
static unsigned count(const char* s, uint64_t id)
{
    size_t p = 0;
    unsigned n = 0, i;
    while (p < got.n)
    {
        uint64_t x = 0;
        const char* text;
        sym_check(got.n - p >= 29, "a mapping event is complete");
        for (i = 0; i < 8; i++) x |= (uint64_t)got.p[p + 20 + i] << (8 * i);
        text = (const char*)got.p + p + 28;
        if (strcmp(text, s) == 0) { sym_check(x == id, "the mapping carries the identifier the label got"); n++; }
        p += 29 + strlen(text);
    }
    return n;
}
void harness(void)
{
    pthread_t th[2];
    unsigned i;
    out_init(&got, 1024);
    ht_init(0, NULL);
    mix = sym_choice("mix", 3);
    t = ht_timeline_create(sym_choice("cap", 2) ? 30 : 500, HT_TRUE, HT_TRUE, NULL, NULL);
    ht_feature_cached_string_enable(t, HT_TRUE);
    ht_timeline_register_listener(t, on_events, NULL);
    for (i = 0; i < 2; i++) pthread_create(&th[i], NULL, run, (void*)(uintptr_t)i);
    for (i = 0; i < 2; i++) pthread_join(th[i], NULL);
    ht_timeline_flush(t);
    if (mix != 1) { sym_check(did[0] == did[1] && did[0] != 0, "threads agree on the identifier of a label"); sym_check(count("dyn", did[0]) == 1, "a label is announced exactly once"); }
    if (mix != 0) { sym_check(sid[0] == sid[1] && sid[0] != 0, "threads agree on the identifier of a label"); sym_check(count(lab, sid[0]) == 1, "a label is announced exactly once"); }
    if (mix == 2) sym_check(count("other", did2[0]) == 1, "a label is announced exactly once");
    sym_observe("bytes", got.n);
}
