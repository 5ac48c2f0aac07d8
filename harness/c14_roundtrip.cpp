/* C14: what the library writes is what the reader reads: classes, events, field values, order. */
#define HARNESS_CLOCK 1
#include "common.h"
#include "reader.hpp"
#include <hawktracer/event_macros_impl.h>
#include <hawktracer/parser/file_stream.hpp>
HT_DECLARE_EVENT_KLASS(RtMixed, HT_Event, (INTEGER, uint8_t, a8), (STRING, const char*, s1), (INTEGER, int64_t, b64), (INTEGER, uint16_t, c16), (STRING, const char*, s2), (INTEGER, int32_t, d32))
HT_DECLARE_EVENT_KLASS(RtDerived, RtMixed, (INTEGER, int8_t, e8), (STRING, const char*, s3), (INTEGER, int16_t, f16), (INTEGER, uint32_t, g32), (INTEGER, uint64_t, h64))
HT_DECLARE_EVENT_KLASS(RtMember, HT_Event, (INTEGER, uint16_t, before), (STRUCT, HT_CallstackIntEvent, inner), (INTEGER, uint8_t, after), (STRUCT, RtMixed, second), (STRING, const char*, last))

struct Want {
    uint32_t klass; const char* name; uint64_t ts, id;
    unsigned n;
    struct { const char* name; FieldTypeId t; uint64_t v; const char* s; } f[20];
    void num(const char* nm, FieldTypeId t, uint64_t v) { f[n].name = nm; f[n].t = t; f[n].v = v; f[n++].s = nullptr; }
    void str(const char* nm, const char* s) { f[n].name = nm; f[n].t = FieldTypeId::STRING; f[n++].s = s ? s : ""; }
};
static Want want[EVENTS + 1];
static unsigned nwant;
static Out data;
static void sink(TEventPtr ev, size_t n, HT_Boolean ser, void*) { sym_check(ser, "serialized events"); out_mem(&data, ev, n); }

static uint64_t num_of(const Event::Value& v)
{
    switch (v.field->get_type_id())
    {
    case FieldTypeId::UINT8: return v.value.f_UINT8;
    case FieldTypeId::INT8: return (uint64_t)v.value.f_INT8;
    case FieldTypeId::UINT16: return v.value.f_UINT16;
    case FieldTypeId::INT16: return (uint64_t)v.value.f_INT16;
    case FieldTypeId::UINT32: return v.value.f_UINT32;
    case FieldTypeId::INT32: return (uint64_t)v.value.f_INT32;
    case FieldTypeId::UINT64: return v.value.f_UINT64;
    case FieldTypeId::INT64: return (uint64_t)v.value.f_INT64;
    default: return 0;
    }
}
/* the k-th value called `name` in the event, embedded events included, in order of declaration */
static const Event::Value* find(const Event& e, const char* name, bool outer_only)
{
    if (e.has_value(name)) return &e.get_raw_value(name);
    for (const auto& f : e.get_klass()->get_fields())
        if (f->get_type_id() == FieldTypeId::STRUCT && e.has_value(f->get_name()) && (!outer_only || f->get_name() == "base"))
        {
            const Event* s = e.get_raw_value(f->get_name()).value.f_EVENT;
            sym_check(s != nullptr, "an embedded event is there");
            const Event::Value* v = find(*s, name, outer_only);
            if (v) return v;
        }
    return nullptr;
}
static unsigned leaves(const Event& e)
{
    unsigned n = 0;
    for (const auto& v : e.get_values())
        n += v.second.field->get_type_id() == FieldTypeId::STRUCT ? leaves(*v.second.value.f_EVENT) : 1;
    return n;
}
static void check_event(const Event& e, const Want& w, bool flat, unsigned inner_heads)
{
    sym_check(e.get_klass()->get_id() == w.klass && e.get_klass()->get_name() == w.name, "the event has its class");
    const Event::Value *ts = find(e, "timestamp", true), *id = find(e, "id", true), *k = find(e, "klass_id", true);
    sym_check(ts && id && k, "the event has a header");
    sym_check(ts->value.f_UINT64 == w.ts && id->value.f_UINT64 == w.id && k->value.f_UINT32 == w.klass, "the header has its values");
    if (flat) sym_check(e.get_timestamp() == w.ts, "the timestamp is the event's");
    for (unsigned i = 0; i < w.n; i++)
    {
        const Event::Value* v = find(e, w.f[i].name, false);
        sym_check(v != nullptr, "every field written is read");
        sym_check(v->field->get_type_id() == w.f[i].t, "every field keeps its type");
        if (w.f[i].t == FieldTypeId::STRING) sym_check(v->value.f_STRING && strcmp(v->value.f_STRING, w.f[i].s) == 0, "every string keeps its value");
        else sym_check(num_of(*v) == w.f[i].v, "every number keeps its value");
    }
    sym_check(leaves(e) == w.n + 3 + (flat ? 0 : 3 * inner_heads), "nothing else is read");
}
static const char* str()
{
    static char big[301];
    unsigned k = sym_choice("strlen", SLEN + 2); /* NULL, long, 1..SLEN bytes (a NULL string is written as an empty one) */
    if (k == 0) return sym_choice("null", 2) ? nullptr : "";
    if (k <= SLEN) return sym_cstr(k);
    memset(big, 'n', 300); /* the reader's buffer grows several times */
    return big;
}
static void head(HT_Event* e, HT_EventKlass* k, const char* name)
{
    Want& w = want[nwant++];
    e->klass = k; e->timestamp = w.ts = sym_u64("ts"); e->id = w.id = sym_u64("id");
    w.klass = k->klass_id; w.name = name; w.n = 0;
}
#define W want[nwant - 1]
static void fill_mixed(RtMixed* m)
{
    m->a8 = sym_u8("a8"); m->s1 = str(); m->b64 = (int64_t)sym_u64("b64"); m->c16 = sym_u16("c16"); m->s2 = "second"; m->d32 = (int32_t)sym_u32("d32");
    W.num("a8", FieldTypeId::UINT8, m->a8); W.str("s1", m->s1); W.num("b64", FieldTypeId::INT64, (uint64_t)m->b64); W.num("c16", FieldTypeId::UINT16, m->c16); W.str("s2", m->s2); W.num("d32", FieldTypeId::INT32, (uint64_t)m->d32);
}
static void fill_stack(HT_CallstackBaseEvent* c)
{
    c->duration = sym_u64("dur"); c->thread_id = sym_u32("tid");
    W.num("duration", FieldTypeId::UINT64, c->duration); W.num("thread_id", FieldTypeId::UINT32, c->thread_id);
}
static unsigned heads[EVENTS + 1];
static void write_event(HT_Timeline* t)
{
    switch (sym_choice("kind", 7))
    {
    case 0: { HT_Event e; head(&e, HT_EVENT_KLASS_GET(HT_Event), "HT_Event"); ht_timeline_push_event(t, &e); break; }
    case 1: { RtMixed e; head(HT_EVENT(&e), HT_EVENT_KLASS_GET(RtMixed), "RtMixed"); fill_mixed(&e); ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 2:
    {
        RtDerived e;
        head(HT_EVENT(&e), HT_EVENT_KLASS_GET(RtDerived), "RtDerived"); fill_mixed(&e.base);
        e.e8 = (int8_t)sym_u8("e8"); e.s3 = str(); e.f16 = (int16_t)sym_u16("f16"); e.g32 = sym_u32("g32"); e.h64 = sym_u64("h64");
        W.num("e8", FieldTypeId::INT8, (uint64_t)e.e8); W.str("s3", e.s3); W.num("f16", FieldTypeId::INT16, (uint64_t)e.f16); W.num("g32", FieldTypeId::UINT32, e.g32); W.num("h64", FieldTypeId::UINT64, e.h64);
        ht_timeline_push_event(t, HT_EVENT(&e));
        break;
    }
    case 3: { HT_CallstackIntEvent e; head(HT_EVENT(&e), HT_EVENT_KLASS_GET(HT_CallstackIntEvent), "HT_CallstackIntEvent"); fill_stack(&e.base); e.label = sym_u64("label"); W.num("label", FieldTypeId::UINT64, e.label); ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 4: { HT_CallstackStringEvent e; head(HT_EVENT(&e), HT_EVENT_KLASS_GET(HT_CallstackStringEvent), "HT_CallstackStringEvent"); fill_stack(&e.base); e.label = str(); W.str("label", e.label); ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    case 5: { HT_StringMappingEvent e; head(HT_EVENT(&e), HT_EVENT_KLASS_GET(HT_StringMappingEvent), "HT_StringMappingEvent"); e.identifier = sym_u64("ident"); e.label = str(); W.num("identifier", FieldTypeId::UINT64, e.identifier); W.str("label", e.label); ht_timeline_push_event(t, HT_EVENT(&e)); break; }
    default:
    {
        RtMember e;
        head(HT_EVENT(&e), HT_EVENT_KLASS_GET(RtMember), "RtMember");
        e.before = sym_u16("before"); W.num("before", FieldTypeId::UINT16, e.before);
        HT_EVENT(&e.inner)->klass = HT_EVENT_KLASS_GET(HT_CallstackIntEvent); HT_EVENT(&e.inner)->timestamp = sym_u64("its"); HT_EVENT(&e.inner)->id = sym_u64("iid");
        fill_stack(&e.inner.base); e.inner.label = sym_u64("label"); W.num("label", FieldTypeId::UINT64, e.inner.label);
        e.after = sym_u8("after"); W.num("after", FieldTypeId::UINT8, e.after);
        HT_EVENT(&e.second)->klass = HT_EVENT_KLASS_GET(RtMixed); HT_EVENT(&e.second)->timestamp = sym_u64("its"); HT_EVENT(&e.second)->id = sym_u64("iid");
        fill_mixed(&e.second);
        e.last = "end"; W.str("last", e.last);
        heads[nwant - 1] = 2;
        ht_timeline_push_event(t, HT_EVENT(&e));
        break;
    }
    }
}
/* the file the reader opens holds what the library wrote */
static char fh[512];
static size_t fpos, fopen_;
static int feof_;
extern "C" {
FILE* hs_fopen(const char* n, const char* m) { sym_check(strcmp(n, "in.htdump") == 0 && m[0] == 'r', "the reader opens the given file for reading"); fopen_++; return (FILE*)fh; }
FILE* hs_fopen64(const char* n, const char* m) { return hs_fopen(n, m); }
size_t hs_fread(void* p, size_t sz, size_t n, FILE*) { size_t k = sz * n; if (k > data.n - fpos) { k = data.n - fpos; feof_ = 1; } memcpy(p, data.p + fpos, k); fpos += k; return k / sz; }
int hs_fgetc(FILE*) { if (fpos == data.n) { feof_ = 1; return -1; } return data.p[fpos++]; }
int hs_getc(FILE* f) { return hs_fgetc(f); }
int hs_feof(FILE*) { return feof_; }
int hs_ferror(FILE*) { return 0; }
int hs_fclose(FILE*) { fopen_--; return 0; }
}
extern "C" void harness(void)
{
    static const unsigned caps[] = {0, 100, 4000};
    HT_ErrorCode err = HT_ERR_OK;
    bool flat = FLAT, file = sym_choice("file", 2), meta_twice = sym_choice("metadata_twice", 2);
    out_init(&data, 16000);
    ht_init(0, NULL);
    HT_REGISTER_EVENT_KLASS(RtMixed);
    HT_REGISTER_EVENT_KLASS(RtDerived);
    HT_REGISTER_EVENT_KLASS(RtMember);
    HT_Timeline* t = ht_timeline_create(caps[meta_twice ? 1 : sym_choice("cap", 3)], HT_FALSE, HT_TRUE, NULL, &err);
    sym_check(t != nullptr && err == HT_ERR_OK, "timeline created");
    ht_timeline_register_listener(t, sink, NULL);
    ht_timeline_listener_push_metadata(sink, NULL, HT_TRUE);
    for (unsigned i = 0; i < EVENTS; i++) write_event(t);
    ht_timeline_flush(t);
    if (meta_twice) /* e.g. a second listener writing to the same place */
    {
        ht_timeline_listener_push_metadata(sink, NULL, HT_TRUE);
        if (TWICE) write_event(t);
        ht_timeline_flush(t);
    }
    size_t heap = sym_heap_live();
    {
        KlassRegister reg;
        unsigned seen = 0, meta = 0;
        std::unique_ptr<Stream> s;
        if (file) s.reset(new FileStream("in.htdump")); else s.reset(new MemStream(data.p, data.n));
        read_all(reg, std::move(s), flat, [&](const Event& e) {
            uint32_t k = e.get_klass()->get_id();
            if (k == 0 || k == 2 || k == 3 || e.get_klass()->get_name() == "HT_SystemInfoEvent") { meta++; return; }
            sym_check(seen < nwant, "no event is read which was not written");
            check_event(e, want[seen], flat, heads[seen]);
            if (!flat)
            {   /* an event a listener keeps is an event of its own */
                Event kept(reg.get_klass(1u));
                {
                    Event copy(e);
                    check_event(copy, want[seen], flat, heads[seen]);
                    kept = copy;
                }
                check_event(kept, want[seen], flat, heads[seen]);
                check_event(e, want[seen], flat, heads[seen]);
                sym_check(kept.get_timestamp() == e.get_timestamp(), "an event kept has its timestamp");
            }
            seen++;
        });
        sym_check(seen == nwant, "every event written is read");
        sym_observe("seen", seen);
        sym_observe("meta", meta);
        auto check_klass = [&](HT_EventKlass* k) {
            auto r = reg.get_klass(k->klass_id);
            sym_check(r && r->get_name() == k->type_info->name && reg.get_klass_id(k->type_info->name) == k->klass_id, "every class is known by its id and its name");
            auto f = r->get_fields();
            sym_check(f.size() == k->type_info->fields_count, "every class has its fields");
            for (size_t i = 0; i < f.size(); i++)
                sym_check(f[i]->get_name() == k->type_info->fields[i].field_name && f[i]->get_type_name() == k->type_info->fields[i].field_type, "fields have their names and types, in order");
        };
        check_klass(HT_EVENT_KLASS_GET(RtMixed)); check_klass(HT_EVENT_KLASS_GET(RtDerived)); check_klass(HT_EVENT_KLASS_GET(RtMember));
        check_klass(HT_EVENT_KLASS_GET(HT_CallstackStringEvent)); check_klass(HT_EVENT_KLASS_GET(HT_CallstackIntEvent)); check_klass(HT_EVENT_KLASS_GET(HT_StringMappingEvent));
    }
    sym_check(fopen_ == 0, "the file is closed");
    sym_check(sym_heap_live() == heap, "the reader releases all its memory");
    ht_timeline_destroy(t);
    sym_reached("done");
}
