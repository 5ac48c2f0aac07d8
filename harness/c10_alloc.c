/* C10: one allocation fails, anywhere; the library reports it or drops the event, stays usable and leaks nothing. */
#define HARNESS_CLOCK 1
#include "filemodel.h"
#include <hawktracer/feature_callstack.h>
#include <hawktracer/feature_cached_string.h>
#include <hawktracer/task_scheduler.h>
#include <hawktracer/event_id_provider.h>
#include <hawktracer/listeners/file_dump_listener.h>
static unsigned notified, destroyed, events, maps;
static unsigned stopping; /* the span being stopped, if that matters */
static void on_events(TEventPtr ev, size_t n, HT_Boolean ser, void* ud)
{
    (void)ud; (void)ser;
    notified++;
    while (n >= 24)   /* mapping events: 20 bytes base, 8 id, string */
    {
        size_t l = 28;
        if (ev[0] == HT_EVENT_KLASS_GET(HT_StringMappingEvent)->klass_id) { while (l < n && ev[l]) l++; l++; maps++; }
        else if (ev[0] == HT_EVENT_KLASS_GET(HT_CallstackIntEvent)->klass_id) { l = 40; events++; if (stopping) { uint64_t lab; sym_check(n >= 40, "whole events arrive"); memcpy(&lab, ev + 32, 8); sym_check(lab == stopping, "a span ends with its own stop"); } }
        else break;
        ev += l; n = n > l ? n - l : 0;
    }
}
static void on_destroy(void* ud) { (void)ud; destroyed++; }
static HT_Boolean task(void* ud) { (*(unsigned*)ud)++; return HT_TRUE; }
static void arm(unsigned n) { ha_fail_at = ha_calls + (long)sym_range("fail_at", 0, n + 30); } /* any allocation from here on */
static void disarm(void) { ha_fail_at = -1; }
void harness(void)
{
    unsigned i;
    HT_ErrorCode err = HT_ERR_OK;
    HT_Timeline *t = NULL, *t2 = NULL;
    fm_init(9000);
    ht_allocator_set(ha_realloc, NULL);
    ht_init(0, NULL);
#if PART == 0
    {
        const char* name = sym_choice("named", 2) ? "group" : NULL;
        unsigned ts = sym_choice("safe", 2), ser = sym_choice("ser", 2), regs = 0, ok = 0;
        char big[200];
        long f;
        memset(big, 'x', 199); big[199] = 0;
        arm(20);
        t = ht_timeline_create(16, ts, ser, name, &err);
        sym_check((t == NULL) == (err != HT_ERR_OK), "a timeline that cannot be created is reported");
        if (!t) { sym_check(ha_failed == 1, "creation only fails when an allocation fails"); disarm(); t = ht_timeline_create(16, ts, ser, name, &err); sym_check(t && err == HT_ERR_OK, "creating the timeline works later"); }
        for (i = 0; i < 18; i++)
        {
            f = ha_failed;
            ok = ht_timeline_register_listener_full(t, on_events, NULL, on_destroy) == HT_ERR_OK;
            sym_check(ok || ha_failed > f, "registration only fails when an allocation fails");
            regs += ok;
        }
        f = ha_failed;
        HT_TIMELINE_PUSH_EVENT(t, HT_StringMappingEvent, 1, big);
        sym_check(notified == (ha_failed > f ? 0 : regs), "every registered listener gets the event, unless its copy could not be allocated");
        disarm();
        notified = 0;
        HT_TIMELINE_PUSH_EVENT(t, HT_StringMappingEvent, 1, big);
        sym_check(notified == regs, "later events arrive");
        ht_timeline_unregister_all_listeners(t);
        sym_check(destroyed == regs, "every registered listener is destroyed once");
        t2 = ht_timeline_create(16, ts, ser, name, &err);
        sym_check(t2 != NULL, "another timeline of the group");
        ht_timeline_register_listener(t2, on_events, NULL);
        notified = 0;
        HT_TIMELINE_PUSH_EVENT(t, HT_StringMappingEvent, 1, big);
        sym_check(notified == (name ? 1 : 0), "timelines of one group share listeners");
    }
#elif PART == 1
    {
        unsigned lost = 0;
        t = ht_timeline_create(0, HT_FALSE, HT_TRUE, NULL, &err);
        ht_timeline_register_listener(t, on_events, NULL);
        arm(6);
        err = ht_feature_callstack_enable(t);
        if (err != HT_ERR_OK) { sym_check(ha_failed == 1, "enabling only fails when an allocation fails"); disarm(); err = ht_feature_callstack_enable(t); }
        sym_check(err == HT_ERR_OK, "callstack is enabled");
        for (i = 0; i < 40; i++) { long f = ha_failed; ht_feature_callstack_start_int(t, i + 1); if (ha_failed > f || lost) lost++; }
        for (i = 0; i < 40; i++) { stopping = 40 - i; ht_feature_callstack_stop(t); }
        ht_feature_callstack_start_int(t, 77);
        stopping = 77;
        ht_feature_callstack_stop(t);
        ht_timeline_flush(t);
        sym_check(events <= 41 && events + lost >= 41, "a span is lost only when its allocation fails");
        sym_observe("events", events);
    }
#elif PART == 2
    {
        static char store[512 * 12 + 8];
        uintptr_t h;
        int safe = (int)sym_choice("safe", 2);
        static const int at[] = {0, 1, 2, 3, 1022, 1023, 1024, 1025, 1026, 1027, 2046, 2047, 2048, 2049, 2050, 2051, 2052, 2053, 2054, 2055, 2056, 2057, 2058, 2059, 2060, 2061, 2062, 2063, 2064, 2065, 1000000};
        t = ht_timeline_create(4000, HT_FALSE, HT_TRUE, NULL, &err);
        ht_timeline_register_listener(t, on_events, NULL);
        ha_fail_at = ha_calls + at[sym_choice("fail_at", 31)];
        err = ht_feature_cached_string_enable(t, safe);
        if (err != HT_ERR_OK) { sym_check(ha_failed == 1, "enabling only fails when an allocation fails"); disarm(); err = ht_feature_cached_string_enable(t, safe); }
        sym_check(err == HT_ERR_OK, "labels are enabled");
        for (i = 0; i < 12; i++)
        {
            const char* l = &store[512 * i];
            long f = ha_failed;
            h = ht_feature_cached_string_add_mapping(t, l);
            if (ha_failed > f) { sym_check(h == 0, "a label that cannot be stored is reported"); h = ht_feature_cached_string_add_mapping(t, l); }
            sym_check(h == (uintptr_t)l, "static label");
        }
        for (i = 0; i < 3; i++)
        {
            static const char* const d[] = {"one", "two", "three"};
            long f = ha_failed;
            h = ht_feature_cached_string_add_mapping_dynamic(t, d[i]);
            if (ha_failed > f) { sym_check(h == 0, "a label that cannot be stored is reported"); h = ht_feature_cached_string_add_mapping_dynamic(t, d[i]); }
            sym_check(h != 0 && h == ht_feature_cached_string_add_mapping_dynamic(t, d[i]), "dynamic label");
        }
        ht_timeline_flush(t);
        sym_check(maps == 15, "each stored label is announced once");
        ht_feature_cached_string_push_map(t);
        ht_timeline_flush(t);
        sym_check(maps == 30, "the map holds each label once");
    }
#elif PART == 3
    {
        HT_FileDumpListener* l;
        unsigned buf = sym_choice("buf", 2) * 300;
        t = ht_timeline_create(0, HT_FALSE, HT_TRUE, NULL, &err);
        for (i = 0; i < 16; i++) ht_timeline_register_listener(t, on_events, NULL);
        arm(5);
        l = ht_file_dump_listener_register(t, "trace.htdump", buf, &err);
        sym_check((l == NULL) == (err != HT_ERR_OK), "a listener that cannot be created is reported");
        sym_check(l || ha_failed, "creation only fails when an allocation fails");
        if (!l) { sym_check(!fm_open, "a failed listener does not keep the file open"); fm_data.n = 0; fm_closed = fm_opened = 0; }
        disarm();
        if (!l) l = ht_file_dump_listener_register(t, "trace.htdump", buf, &err);
        sym_check(l && err == HT_ERR_OK && fm_open, "the listener is created later");
        i = (unsigned)fm_data.n;
        HT_TIMELINE_PUSH_EVENT(t, HT_StringMappingEvent, 1, "x");
        ht_file_dump_listener_flush(l, HT_FALSE);
        sym_check(fm_data.n >= i + 30, "events arrive in the file");
    }
#elif PART == 4
    {
        HT_TaskScheduler* s;
        unsigned ran = 0, n = 0;
        arm(25);
        s = ht_task_scheduler_create(&err);
        sym_check((s == NULL) == (err != HT_ERR_OK), "a scheduler that cannot be created is reported");
        if (!s) { disarm(); s = ht_task_scheduler_create(&err); }
        for (i = 0; i < 18; i++)
        {
            long f = ha_failed;
            HT_TaskId id = ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_RESTART_TIMER, 0, task, &ran);
            sym_check(ha_failed > f ? id == HT_TASK_SCHEDULER_INVALID_TASK_ID : id >= 0, "a task that cannot be scheduled is reported");
            n += id >= 0;
        }
        ht_task_scheduler_tick(s);
        sym_check(ran == n, "exactly the scheduled tasks run");
        ht_task_scheduler_destroy(s);
        {
            HT_EventIdProvider* p;
            arm(2);
            p = ht_event_id_provider_create();
            sym_check(p || ha_failed, "provider");
            if (p) { sym_check(ht_event_id_provider_next(p) == 0, "a new provider starts from 0"); ht_event_id_provider_destroy(p); }
        }
    }
#elif PART == 5
    {
        static HT_EventKlass k[20];
        static MKCREFLECT_TypeInfo ti;
        size_t n0, n1;
        ti.name = "K";
        ht_registry_get_event_klasses(&n0);
        arm(2);
        for (i = 0; i < 20; i++)
        {
            HT_EventKlassId id;
            long f = ha_failed;
            k[i].type_info = &ti; k[i].klass_id = HT_INVALID_KLASS_ID;
            id = ht_registry_register_event_klass(&k[i]);
            if (ha_failed > f) { sym_check(id == HT_INVALID_KLASS_ID, "a class that cannot be registered is reported"); id = ht_registry_register_event_klass(&k[i]); }
            sym_check(id == n0 + i && k[i].klass_id == id, "a class is registered");
        }
        ht_registry_get_event_klasses(&n1);
        sym_check(n1 == n0 + 20, "all classes are registered");
        arm(4);
        for (i = 0; i < 12; i++)
        {
            char nm[3] = {'g', (char)('a' + i), 0};
            HT_Timeline* x = ht_timeline_create(8, 0, 1, nm, &err);
            sym_check((x == NULL) == (err != HT_ERR_OK), "a timeline that cannot be created is reported");
            if (x) ht_timeline_destroy(x);
        }
        disarm();
    }
#endif
    disarm();
    if (t) ht_timeline_destroy(t);
    if (t2) ht_timeline_destroy(t2);
    ht_deinit();
    sym_check(!fm_open, "no file stays open");
    sym_check(ha_live == 0, "everything allocated is released");
    sym_observe("failed", (uint64_t)ha_failed);
}
