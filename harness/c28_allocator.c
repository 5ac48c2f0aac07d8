/* C28: with a custom allocator set, every block the library takes comes from it and goes back to it exactly once. */
#define HARNESS_CLOCK 1
#include "filemodel.h"
#include <hawktracer/feature_callstack.h>
#include <hawktracer/feature_cached_string.h>
#include <hawktracer/task_scheduler.h>
#include <hawktracer/event_id_provider.h>
#include <hawktracer/listeners/file_dump_listener.h>
#define MAXB 4096
static void* blk[MAXB];
static size_t bsz[MAXB];
static unsigned nb, live;
static int tag;
static void* my_realloc(void* p, size_t n, void* ud)
{
    unsigned i = 0;
    void* r;
    sym_check(ud == &tag, "the allocator gets its user data");
    if (p) { memcpy(&i, (char*)p - 16, 4); sym_check(i < nb && blk[i] == p, "only blocks of the allocator are given back to it, once"); }
    sym_check(n || p, "the allocator is not asked to release a null pointer");
    if (n == 0 && p) { blk[i] = NULL; live--; free((char*)p - 16); return NULL; }
    r = (char*)malloc(n + 16) + 16;
    if (p) { memcpy(r, p, bsz[i] < n ? bsz[i] : n); free((char*)p - 16); }
    else { sym_check(nb < MAXB, "harness: table"); i = nb++; live++; }
    memcpy((char*)r - 16, &i, 4);
    blk[i] = r; bsz[i] = n;
    return r;
}
/* the library must not use the C allocator behind the user's back */
#define FORBID(x) sym_check(0, "no memory is taken from or given to " x " while a custom allocator is set")
void* hs_malloc(size_t n) { FORBID("malloc"); return malloc(n); }
void* hs_calloc(size_t a, size_t b) { FORBID("calloc"); return calloc(a, b); }
void* hs_realloc(void* p, size_t n) { FORBID("realloc"); return realloc(p, n); }
void hs_free(void* p) { if (p) FORBID("free"); }
char* hs_strdup(const char* s) { FORBID("strdup"); return strdup(s); }
static HT_Boolean task(void* ud) { (void)ud; return HT_FALSE; }
static void on_events(TEventPtr ev, size_t n, HT_Boolean ser, void* ud) { (void)ev; (void)n; (void)ser; (void)ud; }
void harness(void)
{
    HT_ErrorCode err;
    HT_Timeline* t;
    unsigned i, k, cached = sym_choice("cached", 3), calls = sym_choice("callstack", 2);
    char big[300];
    memset(big, 'y', 299); big[299] = 0;
    fm_init(9000);
    if (cached == 1) ht_allocator_set(my_realloc, big); /* the last one set counts */
    ht_allocator_set(my_realloc, &tag);
    { /* what extensions of the library use */
        char* q = ht_realloc(NULL, 5);
        memcpy(q, "abcd", 5);
        q = ht_realloc(q, 50);
        sym_check(nb == 1 && !strcmp(q, "abcd"), "a block moves with its contents, within the allocator");
        ht_free(NULL);
        ht_free(q);
        q = ht_alloc(7);
        sym_check(nb == 2 && live == 1, "a block comes from the allocator");
        ht_free(q);
    }
    ht_init(0, NULL);
    t = ht_timeline_create(sym_choice("cap", 2) * 100, sym_choice("safe", 2), HT_TRUE, sym_choice("named", 2) ? "n" : NULL, &err);
    if (calls) ht_feature_callstack_enable(t);
    if (cached) ht_feature_cached_string_enable(t, cached == 2);
    if (sym_choice("listeners", 2)) for (i = 0; i < 20; i++) ht_timeline_register_listener(t, on_events, NULL);
    for (k = 0; k < OPS; k++)
    {
        switch (sym_choice("op", 6))
        {
        case 0: if (calls) { for (i = 0; i < 50; i++) ht_feature_callstack_start_int(t, i); for (i = 0; i < 50; i++) ht_feature_callstack_stop(t); } break;
        case 1: if (cached) { for (i = 0; i < 6; i++) { char l[3] = {'l', (char)('a' + i), 0}; ht_feature_cached_string_add_mapping_dynamic(t, l); ht_feature_cached_string_add_mapping(t, big + 0); } ht_feature_cached_string_push_map(t); } break;
        case 2: HT_TIMELINE_PUSH_EVENT(t, HT_StringMappingEvent, 1, big); break;
        case 3: { HT_TaskScheduler* s = ht_task_scheduler_create(NULL); for (i = 0; i < 20; i++) ht_task_scheduler_schedule_task(s, HT_TASK_SCHEDULING_RESTART_TIMER, i % 2 ? 0 : 1000000, task, NULL); ht_task_scheduler_remove_task(s, 3); ht_task_scheduler_tick(s); ht_task_scheduler_destroy(s); break; }
        case 4: { HT_FileDumpListener* l = ht_file_dump_listener_create("trace.htdump", 64, &err); ht_file_dump_listener_destroy(l); break; }
        default: { HT_EventIdProvider* p = ht_event_id_provider_create(); ht_event_id_provider_next(p); ht_event_id_provider_destroy(p); }
        }
    }
    if (sym_choice("unregister", 2)) ht_timeline_unregister_all_listeners(t);
    ht_timeline_destroy(t);
    ht_deinit();
    sym_check(live == 0, "everything taken from the allocator is given back");
    sym_observe("blocks", nb);
}
