/* Independent reader of the metadata part of a stream, and the expected class table. */
#ifndef HARNESS_META_H
#define HARNESS_META_H
#include "common.h"
typedef struct { const char* type; const char* name; uint64_t size; unsigned dt; } XField;
typedef struct { const char* name; unsigned nf; const XField* f; uint32_t id; int infos; unsigned fields; } XClass;
enum { D_STRUCT = 1, D_STRING = 2, D_INT = 3, D_DOUBLE = 5, D_PTR = 6, D_UINT = 99 };
static const XField xf_end[] = {{"HT_Event", "base", 24, D_STRUCT}, {"uint8_t", "endianness", 1, D_UINT}};
static const XField xf_ev[] = {{"HT_EventKlass*", "klass", 8, D_PTR}, {"HT_TimestampNs", "timestamp", 8, D_UINT}, {"HT_EventId", "id", 8, D_UINT}};
static const XField xf_ki[] = {{"HT_Event", "base", 24, D_STRUCT}, {"HT_EventKlassId", "info_klass_id", 4, D_UINT}, {"const char*", "event_klass_name", 8, D_STRING}, {"uint8_t", "field_count", 1, D_UINT}};
static const XField xf_fi[] = {{"HT_Event", "base", 24, D_STRUCT}, {"HT_EventKlassId", "info_klass_id", 4, D_UINT}, {"const char*", "field_type", 8, D_STRING}, {"const char*", "field_name", 8, D_STRING}, {"uint64_t", "size", 8, D_UINT}, {"uint8_t", "data_type", 1, D_UINT}};
static const XField xf_cb[] = {{"HT_Event", "base", 24, D_STRUCT}, {"HT_DurationNs", "duration", 8, D_UINT}, {"HT_ThreadId", "thread_id", 4, D_UINT}};
static const XField xf_cint[] = {{"HT_CallstackBaseEvent", "base", 40, D_STRUCT}, {"HT_CallstackEventLabel", "label", 8, D_UINT}};
static const XField xf_cs[] = {{"HT_CallstackBaseEvent", "base", 40, D_STRUCT}, {"const char*", "label", 8, D_STRING}};
static const XField xf_sm[] = {{"HT_Event", "base", 24, D_STRUCT}, {"uint64_t", "identifier", 8, D_UINT}, {"const char*", "label", 8, D_STRING}};
static const XField xf_si[] = {{"HT_Event", "base", 24, D_STRUCT}, {"uint8_t", "version_major", 1, D_UINT}, {"uint8_t", "version_minor", 1, D_UINT}, {"uint8_t", "version_patch", 1, D_UINT}};
#ifndef MAXX
#define MAXX 64
#endif
static XClass xc[MAXX];
static unsigned nxc;
static void xadd(const char* n, const XField* f, unsigned nf, uint32_t id)
{
    unsigned i = nxc++;
    xc[i].name = n; xc[i].f = f; xc[i].nf = nf; xc[i].id = id; xc[i].infos = 0; xc[i].fields = 0;
}
#define XCORE(T, f) xadd(#T, f, sizeof f / sizeof f[0], HT_EVENT_KLASS_GET(T)->klass_id)
static void xcore(void)
{
    XCORE(HT_EndiannessInfoEvent, xf_end); XCORE(HT_Event, xf_ev); XCORE(HT_EventKlassInfoEvent, xf_ki); XCORE(HT_EventKlassFieldInfoEvent, xf_fi);
    XCORE(HT_CallstackBaseEvent, xf_cb); XCORE(HT_CallstackIntEvent, xf_cint); XCORE(HT_CallstackStringEvent, xf_cs); XCORE(HT_StringMappingEvent, xf_sm); XCORE(HT_SystemInfoEvent, xf_si);
}
static XClass* xfind(uint32_t id) { unsigned i; for (i = 0; i < nxc; i++) if (xc[i].id == id) return &xc[i]; return NULL; }
static uint64_t rd(const uint8_t** p, const uint8_t* e, unsigned n)
{
    uint64_t v = 0; unsigned i;
    sym_check((size_t)(e - *p) >= n, "metadata stream ends inside an event");
    for (i = 0; i < n; i++) v |= (uint64_t)(*p)[i] << (8 * i);
    *p += n;
    return v;
}
static const char* rs(const uint8_t** p, const uint8_t* e)
{
    const char* s = (const char*)*p;
    while (*p < e && **p) ++*p;
    sym_check(*p < e, "metadata stream ends inside a string");
    ++*p;
    return s;
}
static unsigned x_first, x_sys, x_events;
static void x_class(uint32_t kid, const char* name, unsigned nf)
{
    XClass* c = xfind(kid);
    sym_check(c != NULL, "metadata describes only registered classes, by their ids");
    sym_check(c->infos == 0, "a class is described once");
    c->infos++;
    sym_check(strcmp(name, c->name) == 0, "class name in metadata");
    sym_check(nf == (c->nf & 0xff), "field count in metadata");
}
static void x_field(uint32_t kid, const char* type, const char* name, uint64_t size, unsigned dt)
{
    XClass* c = xfind(kid);
    const XField* f;
    sym_check(c != NULL && c->infos == 1, "a field is described after its class");
    sym_check(c->fields < c->nf, "no more fields than the class has");
    f = &c->f[c->fields++];
    sym_check(strcmp(type, f->type) == 0, "field type in metadata");
    sym_check(strcmp(name, f->name) == 0, "field name in metadata");
    sym_check(size == f->size, "field size in metadata");
    sym_check(dt == f->dt, "field data type in metadata");
}
/* consumes one event of a serialized metadata stream; returns 0 if it is not a metadata event */
static int x_event(const uint8_t** p, const uint8_t* e)
{
    const uint8_t* q = *p;
    uint32_t k = (uint32_t)rd(&q, e, 4);
    if (x_events == 0)
    {
        sym_check(k == 0 && k == HT_EVENT_KLASS_GET(HT_EndiannessInfoEvent)->klass_id, "the stream starts with the endianness event, class 0");
    }
    if (k == HT_EVENT_KLASS_GET(HT_EndiannessInfoEvent)->klass_id) { rd(&q, e, 16); sym_check(rd(&q, e, 1) == 0, "endianness of this platform"); sym_check(x_first++ == 0, "one endianness event"); }
    else if (k == HT_EVENT_KLASS_GET(HT_EventKlassInfoEvent)->klass_id)
    {
        uint32_t kid; const char* n; unsigned c;
        rd(&q, e, 16); kid = (uint32_t)rd(&q, e, 4); n = rs(&q, e); c = (unsigned)rd(&q, e, 1);
        x_class(kid, n, c);
    }
    else if (k == HT_EVENT_KLASS_GET(HT_EventKlassFieldInfoEvent)->klass_id)
    {
        uint32_t kid; const char *ty, *n; uint64_t sz; unsigned dt;
        rd(&q, e, 16); kid = (uint32_t)rd(&q, e, 4); ty = rs(&q, e); n = rs(&q, e); sz = rd(&q, e, 8); dt = (unsigned)rd(&q, e, 1);
        x_field(kid, ty, n, sz, dt);
    }
    else if (k == HT_EVENT_KLASS_GET(HT_SystemInfoEvent)->klass_id)
    {
        uint64_t a, b, c;
        rd(&q, e, 16); a = rd(&q, e, 1); b = rd(&q, e, 1); c = rd(&q, e, 1);
        sym_check(a == HT_VERSION_MAJOR && b == HT_VERSION_MINOR && c == HT_VERSION_PATCH, "library version in metadata");
        x_sys++;
    }
    else return 0;
    x_events++;
    *p = q;
    return 1;
}
static void x_complete(void)
{
    unsigned i;
    sym_check(x_first == 1, "endianness is announced");
    sym_check(x_sys == 1, "system information is announced once");
    for (i = 0; i < nxc; i++)
    {
        sym_check(xc[i].infos == 1, "every registered class is described");
        sym_check(xc[i].fields == xc[i].nf, "every field is described");
    }
}
static void x_reset(void) { unsigned i; for (i = 0; i < nxc; i++) { xc[i].infos = 0; xc[i].fields = 0; } x_first = x_sys = x_events = 0; }
#endif
