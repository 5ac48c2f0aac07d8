/* C08: start/stop pair up last-in-first-out and each stop emits the matching event. */
#define HARNESS_CLOCK 3
#include "common.h"
#include <hawktracer/feature_callstack.h>
#include <hawktracer/thread.h>
static Out got, want;
static void on_events(TEventPtr ev, size_t n, HT_Boolean ser, void* ud) { (void)ser; out_mem((Out*)ud, ev, n); }
typedef struct { int kind; uint64_t ts, id, label; const char* s; } Open;
void harness(void)
{
    Open st[OPS + DEEP + 1];
    unsigned n = 0, k, i;
    uint64_t id, base_id;
    HT_Timeline* t;
    static const unsigned caps[] = {0, 100, 4000};
    ht_init(0, NULL);
    out_init(&got, (OPS + DEEP) * 60 + 64); out_init(&want, (OPS + DEEP) * 60 + 64);
    t = ht_timeline_create(caps[sym_choice("cap", 3)], HT_FALSE, HT_TRUE, NULL, NULL);
    ht_timeline_register_listener(t, on_events, &got);
    sym_check(ht_feature_callstack_enable(t) == HT_ERR_OK, "callstack is enabled");
    hc_last = sym_u64("t0"); sym_assume(hc_last < (1ull << 62));
    base_id = id = ht_event_id_provider_next(ht_timeline_get_id_provider(t));
    for (k = 0; k < OPS + DEEP; k++)
    {
        uint32_t d = sym_u32("dt");
        unsigned op = k < DEEP ? k % 3 : sym_choice("op", n ? 4 : 3);
        hc_last += d;
        if (op == 3)
        {
            Open* o = &st[--n];
            ht_feature_callstack_stop(t);
            out_base(&want, o->kind == 1 ? HT_EVENT_KLASS_GET(HT_CallstackStringEvent)->klass_id : HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id, o->ts, o->id);
            out_le(&want, hc_last - o->ts, 8); out_le(&want, ht_thread_get_current_thread_id(), 4);
            if (o->kind == 1) out_str(&want, o->s); else out_le(&want, o->label, 8);
            continue;
        }
        st[n].kind = (int)op; st[n].ts = hc_last; st[n].id = ++id; st[n].label = 0; st[n].s = NULL;
        if (op == 0) { st[n].label = sym_u64("label"); ht_feature_callstack_start_int(t, st[n].label); }
        else if (op == 1) { st[n].s = k % 2 ? "fun" : "a_longer_name"; ht_feature_callstack_start_string(t, st[n].s); }
        else
        {
            HT_DECL_EVENT(HT_CallstackIntEvent, e);
            e.label = st[n].label = sym_u64("label"); e.base.duration = sym_u64("junk"); e.base.thread_id = sym_u32("junk");
            ht_feature_callstack_start(t, &e.base);
        }
        n++;
    }
    while (n)
    {
        Open* o = &st[--n];
        hc_last += sym_u32("dt");
        ht_feature_callstack_stop(t);
        out_base(&want, o->kind == 1 ? HT_EVENT_KLASS_GET(HT_CallstackStringEvent)->klass_id : HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id, o->ts, o->id);
        out_le(&want, hc_last - o->ts, 8); out_le(&want, ht_thread_get_current_thread_id(), 4);
        if (o->kind == 1) out_str(&want, o->s); else out_le(&want, o->label, 8);
    }
    ht_timeline_flush(t);
    check_same(&got, &want, "one event per completed span, and nothing else", "each span's event carries its own label, start time, duration, thread and id, innermost first");
    sym_observe("n", got.n);
    ht_timeline_destroy(t);
    sym_check(got.n == want.n, "destroying the timeline emits nothing more");
    ht_deinit();
}
