/* C17: a whole stream of either byte order is read back with its original values. */
#include "reader.hpp"
static uint64_t val(const Event& e, const char* n, bool flat, bool nested)
{
    const Event* s = nested && !flat ? e.get_value<Event*>("in") : &e;
    const Event::Value& v = s->get_raw_value(n);
    switch (v.field->get_type_id())
    {
    case FieldTypeId::UINT8: return v.value.f_UINT8;
    case FieldTypeId::INT8: return (uint64_t)v.value.f_INT8;
    case FieldTypeId::UINT16: return v.value.f_UINT16;
    case FieldTypeId::INT16: return (uint64_t)v.value.f_INT16;
    case FieldTypeId::UINT32: return v.value.f_UINT32;
    case FieldTypeId::INT32: return (uint64_t)v.value.f_INT32;
    case FieldTypeId::UINT64: return v.value.f_UINT64;
    case FieldTypeId::INT64: return (uint64_t)v.value.f_INT64;
    default: sym_check(0, "field keeps its described type"); return 0;
    }
}
static const char* const fname[8] = {"a", "b", "c", "d", "e", "f", "g", "h"};
static uint64_t expected(unsigned i, uint64_t v)
{
    unsigned bits = 8u << (i / 2);
    if (bits == 64) return v;
    v &= (1ull << bits) - 1;
    if (i & 1) v = (uint64_t)((int64_t)(v << (64 - bits)) >> (64 - bits));
    return v;
}
extern "C" void harness(void)
{
    bool big = sym_choice("big", 2), flat = sym_choice("flat", 2);
    unsigned from = sym_choice("rotate", 8);
    Bytes b(2600, big);
    uint64_t v[8], nv[8], ts = sym_u64("ts"), id = sym_u64("id");
    b.endian(big ? HT_ENDIANNESS_BIG : HT_ENDIANNESS_LITTLE);
    b.klass(40, "Inner", 9);
    b.field(40, "HT_Event", "base", 20, DT_STRUCT);
    for (unsigned i = 0; i < 4; i++) { char n[3] = {'n', fname[i][0], 0}; unsigned t = (from + i) % 8; b.field(40, "t", n, 1u << (t / 2), t & 1 ? DT_INT : DT_UINT); }
    b.klass(0x01020304, "Outer", 10);
    b.field(0x01020304, "HT_Event", "base", 20, DT_STRUCT);
    for (unsigned i = 0; i < 4; i++) b.field(0x01020304, "t", fname[i], 1u << (i / 2), i & 1 ? DT_INT : DT_UINT);
    b.field(0x01020304, "Inner", "in", 40, DT_STRUCT);
    for (unsigned i = 4; i < 8; i++) b.field(0x01020304, "t", fname[i], 1u << (i / 2), i & 1 ? DT_INT : DT_UINT);
    b.head(0x01020304, ts, id);
    for (unsigned i = 0; i < 8; i++) v[i] = sym_u64("v");
    for (unsigned i = 0; i < 4; i++) nv[i] = sym_u64("nv");
    for (unsigned i = 0; i < 4; i++) b.num(v[i], 1u << (i / 2));
    b.head(40, sym_u64("its"), sym_u64("iid"));
    for (unsigned i = 0; i < 4; i++) { unsigned t = (from + i) % 8; b.num(nv[i], 1u << (t / 2)); }
    for (unsigned i = 4; i < 8; i++) b.num(v[i], 1u << (i / 2));
    KlassRegister reg;
    unsigned seen = 0;
    read_all(reg, std::unique_ptr<Stream>(new MemStream(b.p, b.n)), flat, [&](const Event& e) {
        if (e.get_klass()->get_id() != 0x01020304) return;
        seen++;
        sym_check(e.get_klass()->get_name() == "Outer", "the event has the described class");
        for (unsigned i = 0; i < 8; i++) sym_check(val(e, fname[i], flat, false) == expected(i, v[i]), "a field has its original value");
        for (unsigned i = 0; i < 4; i++) { char n[3] = {'n', fname[i][0], 0}; sym_check(val(e, n, flat, true) == expected((from + i) % 8, nv[i]), "a field of an embedded event has its original value"); }
        const Event* h = flat ? &e : e.get_value<Event*>("base");
        sym_check(h->get_value<uint64_t>("timestamp") == ts && h->get_value<uint64_t>("id") == id && h->get_value<uint32_t>("klass_id") == 0x01020304, "the header has its original values");
        sym_check(h->get_timestamp() == ts, "the timestamp is the original one");
    });
    sym_check(seen == 1, "the event is read exactly once");
    sym_reached("done");
}
