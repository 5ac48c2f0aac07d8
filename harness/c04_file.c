/* C04: the trace file holds the metadata followed by exactly the events delivered before the listener was stopped. */
#define HARNESS_CLOCK 1
#include "meta.h"
#include "filemodel.h"
#include <hawktracer/listeners/file_dump_listener.h>
static Out want;          /* serialized events delivered so far to a listener registered before the file listener */
static int stopped;
static void ref_cb(TEventPtr ev, size_t n, HT_Boolean ser, void* ud)
{
    size_t i;
    (void)ud;
    if (stopped) return;
    if (ser) { out_mem(&want, ev, n); return; }
    for (i = 0; i < n;)
    {
        HT_Event* e = HT_EVENT(ev + i);
        out_base(&want, e->klass->klass_id, e->timestamp, e->id);
        if (HT_EVENT_IS_INSTANCE_OF(e, HT_CallstackIntEvent))
        {
            HT_CallstackIntEvent* c = (HT_CallstackIntEvent*)e;
            out_le(&want, c->base.duration, 8); out_le(&want, c->base.thread_id, 4); out_le(&want, c->label, 8);
            i += sizeof *c;
        }
        else
        {
            HT_StringMappingEvent* c = (HT_StringMappingEvent*)e;
            out_le(&want, c->identifier, 8); out_str(&want, c->label);
            i += sizeof *c;
        }
    }
}
static size_t meta_len(void)
{
    const uint8_t *p = fm_data.p, *e = fm_data.p + fm_data.n;
    x_reset();
    while (p < e && x_event(&p, e)) if (x_sys) break;
    x_complete();
    return (size_t)(p - fm_data.p);
}
static void check_file(int all)
{
    size_t m = meta_len();
    sym_check(fm_data.n >= m, "file holds the metadata");
    sym_check(all ? fm_data.n - m == want.n : fm_data.n - m <= want.n, "file holds the delivered events and nothing else");
    sym_check(memcmp(fm_data.p + m, want.p, fm_data.n - m) == 0, "file holds the delivered events in order");
}
void harness(void)
{
    static const unsigned bufs[] = {0, 1, 37, 100, 4096, 20000};
    static const unsigned caps[] = {0, 100};
    HT_ErrorCode err = HT_ERR_OK;
    HT_Timeline* t;
    HT_FileDumpListener* l;
    unsigned k;
    ht_init(0, NULL);
    xcore();
    fm_init(8000); out_init(&want, 1024);
    t = ht_timeline_create(caps[sym_choice("cap", 2)], HT_FALSE, SERIALIZE, NULL, &err);
    ht_timeline_register_listener(t, ref_cb, NULL);
    fm_fail_open = (int)sym_choice("fail_open", 2);
    err = HT_ERR_OK;
    l = ht_file_dump_listener_register(t, "trace.htdump", bufs[sym_choice("buf", 6)], &err);
    if (fm_fail_open)
    {
        sym_check(l == NULL && err != HT_ERR_OK, "a file that cannot be opened is reported");
        HT_TIMELINE_PUSH_EVENT(t, HT_StringMappingEvent, 1, "x");
        ht_timeline_destroy(t); ht_deinit();
        sym_check(fm_opened == 0 && fm_data.n == 0, "nothing is written");
        return;
    }
    fm_fail_close = (int)sym_choice("fail_close", 2);
    sym_check(l != NULL && err == HT_ERR_OK && fm_open, "the listener opens the file");
    for (k = 0; k < OPS; k++)
    {
        switch (sym_choice("op", 6))
        {
        case 0:
        {
            HT_DECL_EVENT(HT_CallstackIntEvent, e);
            HT_EVENT(&e)->timestamp = sym_u64("ts"); HT_EVENT(&e)->id = sym_u64("id"); e.base.duration = sym_u64("d"); e.base.thread_id = sym_u32("t"); e.label = sym_u64("l");
            ht_timeline_push_event(t, HT_EVENT(&e));
            break;
        }
        case 1:
        {
            HT_DECL_EVENT(HT_StringMappingEvent, e);
            HT_EVENT(&e)->timestamp = sym_u64("ts"); HT_EVENT(&e)->id = sym_u64("id"); e.identifier = sym_u64("i"); e.label = "a longer label than most, to cross the buffer's end";
            ht_timeline_push_event(t, HT_EVENT(&e));
            break;
        }
        case 2: ht_timeline_flush(t); break;
        case 3:
            sym_check(ht_file_dump_listener_flush(l, HT_FALSE) == HT_ERR_OK, "flush succeeds");
            check_file(1);
            break;
        case 4:
            fm_fail_flush = (int)sym_choice("fail_flush", 2);
            sym_check((ht_file_dump_listener_flush(l, HT_TRUE) == HT_ERR_OK) == (stopped || !fm_fail_flush), "a failing stream flush is reported");
            check_file(1);
            if (!fm_fail_flush) sym_check(fm_flushed == fm_data.n, "a stream flush hands everything delivered to the OS");
            fm_fail_flush = 0;
            break;
        default:
            ht_file_dump_listener_stop(l);
            stopped = 1;
            sym_check(!fm_open && fm_closed == 1, "stopping closes the file");
            check_file(1);
        }
    }
    if (sym_choice("unregister", 2)) { ht_timeline_unregister_all_listeners(t); sym_check(!fm_open && fm_closed == 1, "removing the listener closes the file"); check_file(1); stopped = 1; }
    ht_timeline_destroy(t);
    sym_check(!fm_open && fm_opened == 1 && fm_closed == 1, "the file is closed exactly once");
    check_file(1);
    sym_observe("bytes", fm_data.n);
    ht_deinit();
}
