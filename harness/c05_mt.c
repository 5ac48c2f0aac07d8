/* C05 under concurrency: two threads register classes, shared ones among them, while metadata is pushed. */
#define HARNESS_CLOCK 1
#include "meta.h"
#include <pthread.h>
#ifndef NK
#define NK 2
#endif
static HT_EventKlass k[NK];
static MKCREFLECT_TypeInfo ti[NK];
static MKCREFLECT_FieldInfo fi[NK][2];
static const XField xf[2] = {{"uint8_t", "f0", 1, D_UINT}, {"uint8_t", "f1", 1, D_UINT}};
static HT_EventKlassId got[2][NK];
static unsigned order[2];
static size_t total;
static void cb(TEventPtr d, size_t n, HT_Boolean s, void* ud)
{
    const uint8_t *p = d, *e = d + n;
    (void)s; (void)ud;
    total += n;
    while (p < e) sym_check(x_event(&p, e), "metadata holds only metadata events");
}
static void* run(void* a)
{
    unsigned me = (unsigned)(uintptr_t)a, i;
    for (i = 0; i < NK; i++)
    {
        unsigned w = order[me] ? NK - 1 - i : i;
        got[me][w] = ht_registry_register_event_klass(&k[w]);
    }
    return NULL;
}
#if PUSH
/* what one listener is told while classes are being registered: every class it hears of, completely and once */
static uint32_t seen[40]; static uint8_t nf_want[40], nf_got[40]; static unsigned nseen;
static void cb_during(TEventPtr d, size_t n, HT_Boolean s, void* ud)
{
    size_t i;
    (void)ud; (void)s;
    for (i = 0; i < n;)
    {
        HT_Event* v = (HT_Event*)(d + i);
        unsigned j;
        if (HT_EVENT_IS_INSTANCE_OF(v, HT_EventKlassInfoEvent))
        {
            HT_EventKlassInfoEvent* x = (HT_EventKlassInfoEvent*)v;
            for (j = 0; j < nseen; j++) sym_check(seen[j] != x->info_klass_id, "a class is described once");
            seen[nseen] = x->info_klass_id; nf_want[nseen] = x->field_count; nf_got[nseen++] = 0;
            sym_check(x->info_klass_id != HT_INVALID_KLASS_ID, "a described class has its id");
        }
        else if (HT_EVENT_IS_INSTANCE_OF(v, HT_EventKlassFieldInfoEvent))
        {
            HT_EventKlassFieldInfoEvent* x = (HT_EventKlassFieldInfoEvent*)v;
            for (j = 0; j < nseen && seen[j] != x->info_klass_id; j++) { }
            sym_check(j < nseen, "a field belongs to a class already described");
            nf_got[j]++;
        }
        i += v->klass->type_info->size;
    }
}
static void* push(void* a)
{
    unsigned j;
    (void)a;
    ht_timeline_listener_push_metadata(cb_during, NULL, HT_FALSE);
    sym_check(nseen >= 9, "the classes registered before are described");
    for (j = 0; j < nseen; j++) sym_check(nf_got[j] == nf_want[j], "a class is described with all its fields");
    return NULL;
}
#endif
void harness(void)
{
    pthread_t th[2];
    unsigned i, j;
    ht_init(0, NULL);
    xcore();
    for (i = 0; i < NK; i++)
    {
        ti[i].name = i ? "second" : "first"; ti[i].fields_count = 2; ti[i].size = 40; ti[i].packed_size = 22; ti[i].fields = fi[i];
        for (j = 0; j < 2; j++) { fi[i][j].data_type = MKCREFLECT_TYPES_INTEGER; fi[i][j].is_signed = 0; fi[i][j].size = 1; fi[i][j].field_type = "uint8_t"; fi[i][j].field_name = j ? "f1" : "f0"; }
        k[i].type_info = &ti[i]; k[i].klass_id = HT_INVALID_KLASS_ID;
    }
    order[0] = sym_choice("order", 2);
    pthread_create(&th[0], NULL, run, (void*)0);
#if PUSH
    pthread_create(&th[1], NULL, push, NULL);
#else
    pthread_create(&th[1], NULL, run, (void*)1);
#endif
    for (i = 0; i < 2; i++) pthread_join(th[i], NULL);
    for (i = 0; i < NK; i++)
    {
        sym_check(k[i].klass_id != HT_INVALID_KLASS_ID && got[0][i] == k[i].klass_id, "a class gets an id");
#if !PUSH
        sym_check(got[1][i] == k[i].klass_id, "every thread that registers a class is told the same id");
#endif
        sym_check(xfind(k[i].klass_id) == NULL, "class ids are unique");
        xadd(ti[i].name, xf, 2, k[i].klass_id);
    }
    x_reset();
    sym_check(ht_timeline_listener_push_metadata(cb, &total, HT_TRUE) == total, "the reported metadata size is the number of bytes pushed");
    x_complete();
    ht_deinit();
}
