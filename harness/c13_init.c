/* C13: ht_init/ht_deinit nest and repeat. */
#define HARNESS_CLOCK 1
#include "meta.h"
#include <internal/registry.h>
#include <hawktracer/feature_callstack.h>
#include <hawktracer/feature_cached_string.h>
static unsigned notified, destroyed;
static Out out;
static void on_events(TEventPtr ev, size_t n, HT_Boolean ser, void* ud) { (void)ev; (void)n; (void)ser; (void)ud; notified++; }
static void on_destroy(void* ud) { (void)ud; destroyed++; }
static void meta_cb(TEventPtr d, size_t n, HT_Boolean s, void* ud) { (void)s; (void)ud; out_mem(&out, d, n); }
static HT_EventKlass user;
static MKCREFLECT_TypeInfo uti;
static int user_in, group_in;
static void check_meta(void)
{
    const uint8_t* p = out.p;
    out.n = 0;
    ht_timeline_listener_push_metadata(meta_cb, NULL, HT_TRUE);
    nxc = 0; xcore();
    if (user_in) xadd("User", NULL, 0, user.klass_id);
    x_reset();
    while (p < out.p + out.n) sym_check(x_event(&p, out.p + out.n), "metadata");
    x_complete();
}
void harness(void)
{
    unsigned k, depth = 0;
    out_init(&out, 9000);
    uti.name = "User"; user.type_info = &uti; user.klass_id = HT_INVALID_KLASS_ID;
    ht_allocator_set(ha_realloc, NULL);
    sym_check(!ht_is_initialized(), "not initialized at first");
    for (k = 0; k < OPS; k++)
    {
        unsigned op = depth ? sym_choice("op", 5) : sym_choice("op0", 2);
        if (op == 0) { ht_init(0, NULL); depth++; }
        else if (op == 1)
        {
            ht_deinit();
            if (depth && --depth == 0)
            {
                sym_check(ha_live == 0, "the last deinit releases everything");
                sym_check(destroyed == (unsigned)group_in, "listeners of named groups are destroyed by the last deinit");
                user_in = group_in = 0; destroyed = 0;
            }
        }
        else if (op == 2)
        {
            HT_EventKlassId id = ht_registry_register_event_klass(&user);
            sym_check(id != HT_INVALID_KLASS_ID && id == user.klass_id, "a class can be registered while initialized");
            user_in = 1;
        }
        else if (op == 3)
        {
            HT_ErrorCode err;
            HT_Timeline* t = ht_timeline_create(16, sym_choice("safe", 2), 1, "group", &err);
            unsigned want = (unsigned)group_in;
            sym_check(t && err == HT_ERR_OK, "a timeline can be created while initialized");
            sym_check(ht_feature_callstack_enable(t) == HT_ERR_OK, "features can be enabled while initialized");
            notified = 0;
            HT_TIMELINE_PUSH_EVENT(t, HT_StringMappingEvent, 1, "x");
            ht_timeline_flush(t);
            sym_check(notified == want, "listeners of a named group stay until the last deinit");
            if (!group_in) { ht_timeline_register_listener_full(t, on_events, NULL, on_destroy); group_in = 1; }
            ht_timeline_destroy(t);
            sym_check(destroyed == 0, "listeners of a named group outlive its timelines");
        }
        else check_meta();
        sym_check(!!ht_is_initialized() == (depth > 0), "initialized between the first init and the matching deinit");
        if (depth && op < 3) check_meta();
    }
    while (depth) { ht_deinit(); depth--; sym_check(!!ht_is_initialized() == (depth > 0), "initialized until the matching deinit"); }
    sym_check(ha_live == 0, "the last deinit releases everything");
}
