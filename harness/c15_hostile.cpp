/* C15: no byte stream makes the reader crash, hang, leak or report anything but complete events of known classes. */
#include "reader.hpp"
struct Watch : public MemStream {
    bool failed = false; unsigned reads = 0;
    bool start() override { pos = 0; return true; }
    Watch(const uint8_t* p_, size_t n_) : MemStream(p_, n_) {}
    int read_byte() override { sym_check(++reads < 4 * LEN + 4000, "the reader stops reading at the end"); int b = MemStream::read_byte(); failed |= b < 0; return b; }
    bool read_data(char* b, size_t k) override { sym_check(++reads < 4 * LEN + 4000, "the reader stops reading at the end"); bool ok = MemStream::read_data(b, k); failed |= !ok; return ok; }
};
static bool big;
static const uint8_t* at;
static bool skip_base;
static void num(uint64_t v, unsigned w) { for (unsigned i = 0; i < w; i++) sym_check(*at++ == (uint8_t)(v >> (8 * (big ? w - 1 - i : i))), "a value reported is the one in the stream"); }
static void again(const Event& e)
{
    for (const auto& f : e.get_klass()->get_fields())
    {
        sym_check(e.has_value(f->get_name()), "an event reported has all fields of its class");
        const Event::Value& v = e.get_raw_value(f->get_name());
        switch (f->get_type_id())
        {
        case FieldTypeId::UINT8: num(v.value.f_UINT8, 1); break;
        case FieldTypeId::INT8: num((uint8_t)v.value.f_INT8, 1); break;
        case FieldTypeId::UINT16: num(v.value.f_UINT16, 2); break;
        case FieldTypeId::INT16: num((uint16_t)v.value.f_INT16, 2); break;
        case FieldTypeId::UINT32: num(v.value.f_UINT32, 4); break;
        case FieldTypeId::INT32: num((uint32_t)v.value.f_INT32, 4); break;
        case FieldTypeId::UINT64: num(v.value.f_UINT64, 8); break;
        case FieldTypeId::INT64: num((uint64_t)v.value.f_INT64, 8); break;
        case FieldTypeId::STRING:
            for (const char* c = v.value.f_STRING;; c++) { sym_check(*at++ == (uint8_t)*c, "a string reported is the one in the stream"); if (!*c) break; }
            break;
        case FieldTypeId::STRUCT:
            sym_check(v.value.f_EVENT != nullptr, "an embedded event is there");
            if (skip_base && f->get_name() == "base" && f->get_type_name() == "HT_Event") { skip_base = false; break; }
            again(*v.value.f_EVENT);
            break;
        default: sym_check(0, "only events which can be read are reported");
        }
    }
}
static void run(const uint8_t* p, size_t n, bool flat)
{
    KlassRegister reg;
    Watch* w = new Watch(p, n);
    size_t from = 0;
    size_t first = 0;
    unsigned seen = 0, seen_again = 0;
    bool second = false, bad = false;
    ProtocolReader r(&reg, std::unique_ptr<Stream>(w), flat);
    r.register_events_listener([&](const Event& e) {
        if (second) { seen_again++; return; }
        seen++;
        sym_check(!bad, "nothing is reported after a description which makes no sense");
        sym_check(!w->failed, "no incomplete event is reported");
        auto k = e.get_klass();
        sym_check(k && reg.get_klass(k->get_id()) == k, "only events of known classes are reported");
        if (!flat)
        {
            at = p + from;
            if (k->get_id() != 1) { num(k->get_id(), 4); at += 16; }
            skip_base = true;
            if (k->get_id() == 0) big = e.get_value<uint8_t>("endianness") != HT_ENDIANNESS_LITTLE;
            again(e);
            sym_check(at == p + w->pos, "an event reported is exactly the bytes read for it");
        }
        else
            for (const auto& f : k->get_fields()) if (f->get_type_id() != FieldTypeId::STRUCT) sym_check(e.has_value(f->get_name()), "an event reported has all fields of its class");
        from = w->pos;
        if (seen == 1) first = from;
        if (k->get_id() == 3 && e.get_value<uint32_t>("info_klass_id") != 2 && e.get_value<uint32_t>("info_klass_id") != 3 && e.get_value<uint32_t>("info_klass_id") != 1)
        {
            uint8_t dt = e.get_value<uint8_t>("data_type");
            uint64_t size = e.get_value<uint64_t>("size");
            bad = !reg.klass_exists(e.get_value<uint32_t>("info_klass_id")) || (dt != DT_STRUCT && dt != DT_STRING && dt != DT_INT && dt != DT_PTR && dt != DT_UINT) ||
                  ((dt == DT_INT || dt == DT_UINT) && size != 1 && size != 2 && size != 4 && size != 8);
        }
    });
    sym_check(r.start(), "reading a stream starts");
    r.wait_for_complete();
    r.stop();
    if (seen)
    {   /* whatever the stream did to the reader, it can be started again */
        second = true;
        w->n = first;
        sym_check(r.start(), "reading starts again");
        r.wait_for_complete();
        r.stop();
        sym_check(seen_again == 1, "the stream is read again from its start");
    }
    sym_observe("seen", seen);
}
extern "C" void harness(void)
{
    size_t heap = sym_heap_live();
    bool flat = FLAT;
#if MODE == 0
    {   /* arbitrary bytes from the start */
        uint8_t* p = (uint8_t*)malloc(LEN);
        size_t n = LEN - sym_choice("cut", 3);
        sym_bytes(p, LEN, "byte");
        run(p, n, flat);
        free(p);
    }
#else
    {   /* a structured stream whose details make no sense */
        static const char* const types[] = {"A", "B", "HT_Event", "HT_StringMappingEvent"};
        static const char* const names[] = {"base", "x"};
        static const uint8_t dts[] = {DT_STRUCT, DT_STRING, DT_UINT, DT_INT, DT_PTR, HT_MKCREFLECT_TYPES_EXT_DOUBLE, 77};
        Bytes b(700);
        b.klass(50, "A", 2);
        unsigned nf = FIELDS;
        unsigned extra = sym_choice("with_b", 3); /* no other class; one described before; one described after the class which uses it */
        if (extra == 1)
        {
            b.klass(51, "B", 1);
            b.field(51, types[sym_choice("btype", 4)], names[sym_choice("bname", 2)], 20, DT_STRUCT);
        }
        for (unsigned i = 0; i < nf; i++)
        {
            uint32_t to = i == 0 ? 50 : 48 + sym_choice("to", 4);
            uint8_t dt = dts[sym_choice("dt", 7)];
            b.field(to, dt == DT_STRUCT ? extra == 2 ? "C" : types[sym_choice("type", 4)] : "int", names[sym_choice("name", 2)], dt == DT_UINT || dt == DT_INT ? sym_u64("size") : 8, dt);
        }
        if (extra == 2)
        {
            b.klass(52, "C", 1);
            b.field(52, "A", names[sym_choice("cname", 2)], 8, DT_STRUCT);
        }
        b.head(sym_choice("known", 2) ? 50 : sym_u32("event_class"), sym_u64("ts"), sym_u64("id"));
        for (unsigned i = 0; i < LEN; i++) b.u8(sym_u8("payload"));
        size_t n = b.n - sym_choice("cut", LEN + 21);
        uint8_t* p = (uint8_t*)malloc(n);
        memcpy(p, b.p, n);
        run(p, n, flat);
        free(p);
    }
#endif
    sym_check(sym_heap_live() == heap, "the reader releases all its memory");
    sym_reached("done");
}
