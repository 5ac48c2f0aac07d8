/* C32: a scoped tracepoint records exactly one span per execution of its scope, however the scope is left, innermost first. */
#define HARNESS_CLOCK 1
#include "common.h"
#include <hawktracer/tracepoint.h>
#include <hawktracer/thread.h>
static Out got, want;
static HT_Timeline* t;
static void on_events(TEventPtr ev, size_t n, HT_Boolean ser, void* ud) { (void)ser; out_mem((Out*)ud, ev, n); }
/* shadow stack of the scopes that are open, in the harness's view */
typedef struct { int str; uint64_t label, start, id; const char* s; } Open;
static Open st[64];
static unsigned depth;
static uint64_t next_id, now;
static void opened(int str, uint64_t label, const char* s) { now += 10; st[depth].str = str; st[depth].label = label; st[depth].s = s; st[depth].start = now; st[depth].id = ++next_id; depth++; }
static void closed(void)
{
    Open* o = &st[--depth];
    now += 10;
    out_base(&want, o->str ? HT_EVENT_KLASS_GET(HT_CallstackStringEvent)->klass_id : HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id, o->start, o->id);
    out_le(&want, now - o->start, 8);
    out_le(&want, ht_thread_get_current_thread_id(), 4);
    if (o->str) out_str(&want, o->s); else out_le(&want, o->label, 8);
}
static void mapped(uint64_t id, const char* s) /* a mapping event is pushed before the span opens */
{
    now += 10;
    out_base(&want, HT_EVENT_KLASS_GET(HT_StringMappingEvent)->klass_id, now, ++next_id);
    out_le(&want, id, 8);
    out_str(&want, s);
}
static void begin(void)
{
    out_init(&got, 4096); out_init(&want, 4096);
    ht_init(0, NULL);
    t = ht_timeline_create(sym_choice("cap", 2) ? 50 : 3000, HT_FALSE, HT_TRUE, NULL, NULL);
    ht_feature_callstack_enable(t);
    ht_feature_cached_string_enable(t, HT_FALSE);
    ht_timeline_register_listener(t, on_events, &got);
    next_id = ht_event_id_provider_next(ht_timeline_get_id_provider(t));
    now = hc_last;
}
static void finish(void)
{
    ht_timeline_flush(t);
    check_same(&got, &want, "one event per executed scope", "each scope is reported once, innermost first, with its label, start and duration");
    sym_observe("n", got.n);
    ht_timeline_destroy(t);
    ht_deinit();
}
