/* C05: the metadata pushed to a new listener describes exactly the registered classes. */
#define HARNESS_CLOCK 1
#include "meta.h"
static size_t total;
static int ser;
static void cb(TEventPtr d, size_t n, HT_Boolean s, void* ud)
{
    const uint8_t *p = d, *e = d + n;
    sym_check(ud == &total, "listener gets its own pointer");
    sym_check(!!s == ser, "listener is told whether metadata is serialized");
    total += n;
    if (ser) { while (p < e) sym_check(x_event(&p, e), "metadata holds only metadata events"); return; }
    while (p < e)
    {
        HT_Event* v = (HT_Event*)p;
        sym_check((size_t)(e - p) >= sizeof(HT_Event), "whole events per notification");
        if (x_events == 0) sym_check(HT_EVENT_IS_INSTANCE_OF(v, HT_EndiannessInfoEvent), "the stream starts with the endianness event");
        if (HT_EVENT_IS_INSTANCE_OF(v, HT_EndiannessInfoEvent)) { sym_check(((HT_EndiannessInfoEvent*)v)->endianness == 0, "endianness of this platform"); x_first++; p += sizeof(HT_EndiannessInfoEvent); }
        else if (HT_EVENT_IS_INSTANCE_OF(v, HT_EventKlassInfoEvent)) { HT_EventKlassInfoEvent* i = (HT_EventKlassInfoEvent*)v; x_class(i->info_klass_id, i->event_klass_name, i->field_count); p += sizeof *i; }
        else if (HT_EVENT_IS_INSTANCE_OF(v, HT_EventKlassFieldInfoEvent)) { HT_EventKlassFieldInfoEvent* i = (HT_EventKlassFieldInfoEvent*)v; x_field(i->info_klass_id, i->field_type, i->field_name, i->size, i->data_type); p += sizeof *i; }
        else if (HT_EVENT_IS_INSTANCE_OF(v, HT_SystemInfoEvent)) { HT_SystemInfoEvent* i = (HT_SystemInfoEvent*)v; sym_check(i->version_major == HT_VERSION_MAJOR && i->version_minor == HT_VERSION_MINOR && i->version_patch == HT_VERSION_PATCH, "library version in metadata"); x_sys++; p += sizeof *i; }
        else sym_check(0, "metadata holds only metadata events");
        x_events++;
    }
    sym_check(p == e, "whole events per notification");
}
static char* name_of(unsigned len, char c)
{
    char* s = (char*)malloc(len + 1);
    memset(s, c, len); s[len] = 0;
    if (len) { s[len - 1] = (char)sym_u8("ch"); sym_assume(s[len - 1] != 0); }
    return s;
}
static HT_EventKlass* user_class(unsigned idx, unsigned nf, unsigned namelen)
{
    HT_EventKlass* k = (HT_EventKlass*)malloc(sizeof *k);
    MKCREFLECT_TypeInfo* t = (MKCREFLECT_TypeInfo*)malloc(sizeof *t);
    XField* xf = (XField*)malloc((nf ? nf : 1) * sizeof *xf);
    unsigned i;
    uint32_t id;
    t->name = name_of(namelen, (char)('A' + idx % 26)); t->fields_count = nf; t->size = 100; t->packed_size = 90;
    t->fields = (MKCREFLECT_FieldInfo*)malloc((nf ? nf : 1) * sizeof *t->fields);
    for (i = 0; i < nf; i++)
    {
        MKCREFLECT_FieldInfo* f = &t->fields[i];
        memset(f, 0, sizeof *f);
#if SYMFIELDS
        f->data_type = (MKCREFLECT_Types)(1 + sym_range("dt", 0, 5)); f->is_signed = (int)sym_range("sg", 0, 1); f->size = sym_u64("fsz");
#else
        f->data_type = MKCREFLECT_TYPES_INTEGER; f->is_signed = i & 1; f->size = i;
#endif
        f->field_type = "uint8_t"; f->field_name = name_of(!SYMFIELDS && i % 2 ? 60 + idx % 19 : 1 + i % 7, 'f');
        xf[i].type = f->field_type; xf[i].name = f->field_name; xf[i].size = f->size;
        xf[i].dt = f->data_type == MKCREFLECT_TYPES_INTEGER ? (f->is_signed ? D_INT : D_UINT) : (unsigned)f->data_type;
    }
    k->type_info = t; k->klass_id = HT_INVALID_KLASS_ID; k->serialize = NULL; k->get_size = NULL;
    id = ht_registry_register_event_klass(k);
    sym_check(id != HT_INVALID_KLASS_ID && k->klass_id == id, "a class gets an id");
    sym_check(xfind(id) == NULL, "class ids are unique");
    sym_check(ht_registry_register_event_klass(k) == id, "registering a class again keeps its id");
    xadd(t->name, xf, nf, id);
    return k;
}
void harness(void)
{
    unsigned i, n = CLASSES;
    ht_init(0, NULL);
    xcore();
    ser = (int)sym_choice("serialize", 2);
#ifdef FILL
    for (i = 0; i < FILL; i++)
    {
        static MKCREFLECT_TypeInfo t = {"filler"};
        HT_EventKlass* k = (HT_EventKlass*)calloc(1, sizeof *k);
        k->type_info = &t; k->klass_id = HT_INVALID_KLASS_ID;
        xadd("filler", NULL, 0, ht_registry_register_event_klass(k));
        sym_check(k->klass_id == xc[nxc - 1].id, "a class gets an id");
    }
#elif !SYMFIELDS
    /* move the boundaries of raw (fixed size) metadata events relative to the end of the internal buffer */
    if (!ser) { unsigned extra = sym_choice("extra", 8); for (i = 0; i < extra; i++) user_class(50 + i, 0, 3); }
#endif
    for (i = 0; i < n; i++)
    {
#if SYMFIELDS
        user_class(i, sym_choice("nf", 4), 1 + sym_choice("namelen", 3));
#else
        user_class(i, i == 3 ? 25 : 3 + i % 5, i == 0 && ser && CLASSES > 1 ? 1 + sym_choice("namelen", 90) : 4 + i % 9);
#endif
    }
    {
        size_t r = ht_timeline_listener_push_metadata(cb, &total, ser);
        sym_check(r == total, "the reported metadata size is the number of bytes pushed");
        x_complete();
        sym_observe("bytes", total);
    }
    /* a later listener gets the same description again, including classes registered meanwhile */
    user_class(40, 2, 5);
    x_reset(); total = 0;
    sym_check(ht_timeline_listener_push_metadata(cb, &total, ser) == total, "the reported metadata size is the number of bytes pushed");
    x_complete();
    sym_observe("events", x_events);
    ht_deinit();
}
