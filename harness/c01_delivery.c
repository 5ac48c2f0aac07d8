/* C01: every pushed event reaches every listener exactly once, in order, intact, in whole events. */
#define HARNESS_CLOCK 1
#include "common.h"
#define NL 2
static Out want, got[NL];
static size_t bound[64], nb; /* event boundaries in the stream */
static int mode;
static void on_events(TEventPtr ev, size_t n, HT_Boolean ser, void* ud)
{
    Out* o = (Out*)ud;
    size_t i, end = o->n + n, ok = 0;
    sym_check(!!ser == mode, "listener is told whether the data is serialized");
    sym_check(end <= want.n, "listener never gets more bytes than were pushed");
    out_mem(o, ev, n);
    for (i = 0; i < nb; i++) if (bound[i] == end) ok = 1;
    sym_check(n == 0 || ok, "a notification ends at an event boundary");
    sym_check(same(o, &want, o->n - n, o->n), "bytes handed to the listener are the pushed ones, in order");
}
static void pushed(HT_Timeline* t, void* e, size_t raw)
{
    if (!mode) out_mem(&want, e, raw);
    bound[nb++] = want.n;
    ht_timeline_push_event(t, HT_EVENT(e));
}
#define INIT(T, e) T e; memset(&e, 0, sizeof e); HT_EVENT(&e)->klass = HT_EVENT_KLASS_GET(T); HT_EVENT(&e)->timestamp = sym_u64("ts"); HT_EVENT(&e)->id = sym_u64("id"); \
    if (mode) out_base(&want, HT_EVENT_KLASS_GET(T)->klass_id, HT_EVENT(&e)->timestamp, HT_EVENT(&e)->id)
static void push_string(HT_Timeline* t, unsigned len)
{
    INIT(HT_CallstackStringEvent, e);
    char* s = (char*)malloc(len + 1);
    unsigned i;
    for (i = 0; i < len; i++) s[i] = (char)('a' + i % 23);
    if (len) { s[0] = (char)sym_u8("ch"); s[len - 1] = (char)sym_u8("ch"); sym_assume(s[0] && s[len - 1]); }
    s[len] = 0;
    e.base.duration = sym_u64("dur"); e.base.thread_id = sym_u32("tid"); e.label = s;
    if (mode) { out_le(&want, e.base.duration, 8); out_le(&want, e.base.thread_id, 4); out_str(&want, s); }
    pushed(t, &e, sizeof e);
    if (mode) { memset(s, 'x', len); free(s); } /* serialized: nothing of the event is needed after the push */
}
void harness(void)
{
    HT_ErrorCode err = HT_ERR_UNKNOWN;
    HT_Timeline* t;
    size_t cap;
    unsigned k, i;
    mode = MODE;
    out_init(&want, 1024);
    ht_init(0, NULL);
    cap = CAPLO + sym_choice("capacity", CAPHI - CAPLO + 1);
    t = ht_timeline_create(cap, cap & 1, mode, (cap & 2) ? "L" : NULL, &err);
    sym_check(t != NULL && err == HT_ERR_OK, "timeline is created");
    for (i = 0; i < NL; i++)
    {
        out_init(&got[i], 1024);
        sym_check((i ? ht_timeline_register_listener_full(t, on_events, &got[i], NULL) : ht_timeline_register_listener(t, on_events, &got[i])) == HT_ERR_OK, "listener is registered");
    }
    for (k = 0; k < OPS; k++)
        switch (sym_choice("op", 6))
        {
        case 0: { INIT(HT_Event, e); pushed(t, &e, sizeof e); break; }
        case 1: { INIT(HT_CallstackIntEvent, e); e.base.duration = sym_u64("dur"); e.base.thread_id = sym_u32("tid"); e.label = sym_u64("lab");
                  if (mode) { out_le(&want, e.base.duration, 8); out_le(&want, e.base.thread_id, 4); out_le(&want, e.label, 8); }
                  pushed(t, &e, sizeof e); break; }
        case 2: push_string(t, 2); break;
        case 3: push_string(t, 95); break;  /* 128 bytes serialized */
        case 4: push_string(t, 96); break;  /* 129 */
        default:
            ht_timeline_flush(t);
            for (i = 0; i < NL; i++) sym_check(got[i].n == want.n, "after a flush nothing is pending");
        }
    ht_timeline_destroy(t);
    for (i = 0; i < NL; i++) check_same(&got[i], &want, "each listener got exactly the pushed bytes", "each listener got the pushed content");
    sym_observe("n", want.n);
    sym_observe("events", nb);
    ht_deinit();
}
