/* C16: the class register holds exactly what was described, whatever the order of descriptions. */
#include "reader.hpp"
#define LONG "A class whose name is really quite long, number "
struct MF { const char* name; const char* type; FieldTypeId t; int klass; };
struct MK { uint32_t id; const char* name; unsigned n; MF f[OPS + 6]; };
static MK model[OPS + 5];
static unsigned nm;
static MK* by_id(uint32_t id) { for (unsigned i = 0; i < nm; i++) if (model[i].id == id) return &model[i]; return nullptr; }
static char* dup(const char* s) { char* r = (char*)malloc(strlen(s) + 1); strcpy(r, s); return r; }
static bool contains(int k, uint32_t id)
{
    if (model[k].id == id) return true;
    for (unsigned i = 0; i < model[k].n; i++) if (model[k].f[i].klass >= 0 && contains(model[k].f[i].klass, id)) return true;
    return false;
}
static int by_name(const char* n) { for (unsigned i = 0; i < nm; i++) if (!strcmp(model[i].name, n)) return (int)i; return -1; }
static bool valid(uint64_t size, uint8_t dt, FieldTypeId* t)
{
    bool w = size == 1 || size == 2 || size == 4 || size == 8;
    int i = size == 1 ? 0 : size == 2 ? 2 : size == 4 ? 4 : 6;
    switch (dt)
    {
    case DT_PTR: *t = FieldTypeId::POINTER; return true;
    case DT_STRING: *t = FieldTypeId::STRING; return true;
    case DT_STRUCT: *t = FieldTypeId::STRUCT; return true;
    case DT_UINT: *t = (FieldTypeId)i; return w;
    case DT_INT: *t = (FieldTypeId)(i + 1); return w;
    default: return false;
    }
}
static const MF* find(const MK& k, const char* name, bool rec)
{
    for (unsigned i = 0; i < k.n; i++)
    {
        if (!strcmp(k.f[i].name, name)) return &k.f[i];
        if (rec && k.f[i].klass >= 0) { const MF* r = find(model[k.f[i].klass], name, true); if (r) return r; }
    }
    return nullptr;
}
static const uint32_t ids[] = {50, 0xFFFFFFF0u, 1};
static const char* const names[][2] = {{LONG "1", LONG "1 again"}, {LONG "2", LONG "2 again"}, {"HT_Event", "other"}}; /* two classes never share a name */
static const char* const types[] = {LONG "1", LONG "2", "HT_Event"};
static const char* const fields[] = {"x", "base"};
static const char* const all_fields[] = {"x", "base", "y", "klass_id", "timestamp", "nope"};
static void check(KlassRegister& reg)
{
    sym_check(reg.get_klasses().size() == nm, "the register holds the described classes and no others");
    for (unsigned i = 0; i < nm; i++)
    {
        auto k = reg.get_klass(model[i].id);
        sym_check(k && reg.klass_exists(model[i].id), "a described class is found by its id");
        sym_check(k->get_id() == model[i].id && k->get_name() == model[i].name, "a class keeps the name described first for its id");
        auto f = k->get_fields();
        sym_check(f.size() == model[i].n, "a class has exactly its described fields");
        for (unsigned j = 0; j < model[i].n; j++)
        {
            sym_check(f[j]->get_name() == model[i].f[j].name && f[j]->get_type_name() == model[i].f[j].type && f[j]->get_type_id() == model[i].f[j].t, "fields are as described, in order");
            sym_check((f[j]->get_klass() != nullptr) == (model[i].f[j].klass >= 0), "an embedded field knows its class when it was described before");
            if (f[j]->get_klass()) sym_check(f[j]->get_klass()->get_name() == model[i].f[j].type, "an embedded field refers to the class of its type name");
        }
        for (unsigned r = 0; r < 2; r++)
            for (const char* n : all_fields)
            {
                auto got = k->get_field(n, r);
                const MF* want = find(model[i], n, r);
                sym_check((got != nullptr) == (want != nullptr), "a field is found exactly when the class or an embedded class has it");
                if (want) sym_check(got->get_name() == n && got->get_type_id() == want->t && got->get_type_name() == want->type, "the field found is the right one");
            }
    }
    for (const char* n : {LONG "1", LONG "2", LONG "1 again", "other", "HT_Event", "HT_EventKlassInfoEvent", "nope"})
    {
        bool known = by_name(n) >= 0;
        sym_check((reg.get_klass(n) != nullptr) == known, "a class is found by name exactly when described");
        sym_check((reg.get_klass_id(n) != HT_INVALID_KLASS_ID) == known, "a class id is found by name exactly when described");
        if (known) sym_check(reg.get_klass(n)->get_name() == n && reg.get_klass(reg.get_klass_id(n))->get_name() == n, "lookup by name finds a class of that name");
    }
    for (uint32_t id : ids) sym_check(reg.klass_exists(id) == (by_id(id) != nullptr), "a class exists exactly when described");
    sym_check(!reg.get_klass(77u) && !reg.klass_exists(77u), "an id nobody described is unknown");
}
static void core(uint32_t id, const char* name) { model[nm].id = id; model[nm].name = name; model[nm++].n = 0; }
static void coref(const char* n, const char* t, FieldTypeId id) { MK& k = model[nm - 1]; k.f[k.n++] = MF{n, t, id, -1}; }
#if MT
/* one thread describes classes (as a reader does) while another looks classes up */
#include <thread>
static void describe_one(KlassRegister& reg, uint32_t id, const char* name)
{
    auto ki = reg.get_klass(2u);
    Event e(ki);
    e.set_value(ki->get_field("info_klass_id", false).get(), id);
    e.set_value(ki->get_field("event_klass_name", false).get(), dup(name));
    e.set_value(ki->get_field("field_count", false).get(), (uint8_t)1);
    reg.handle_register_events(e);
}
extern "C" void harness(void)
{
    static const char* const old[] = {"o0", "o1", "o2", "o3", "o4", "o5", "o6", "o7", "o8"};
    KlassRegister reg;
    unsigned n = sym_choice("before", 2) ? 9 : 0, what = sym_choice("look", 4); /* 13 classes: the next one makes the table grow */
    for (unsigned i = 0; i < n; i++) describe_one(reg, 100 + i, old[i]);
    std::thread reader([&] { describe_one(reg, 50, "new"); describe_one(reg, 51, "newer"); });
    bool second = false, first = false;
    switch (what)
    {
    case 0: { auto k = reg.get_klass(51u); second = k != nullptr; if (k) sym_check(k->get_id() == 51 && k->get_name() == "newer", "the class found is the one asked for"); first = reg.klass_exists(50); break; }
    case 1: { auto k = reg.get_klass("newer"); second = k != nullptr; if (k) sym_check(k->get_id() == 51, "the class found is the one asked for"); first = reg.get_klass_id("new") == 50; break; }
    case 2: { auto id = reg.get_klass_id("newer"); second = id == 51; sym_check(second || id == HT_INVALID_KLASS_ID, "the id found is the one asked for"); first = reg.get_klass("new") != nullptr; break; }
    default: { auto all = reg.get_klasses(); second = all.count(51); first = all.count(50); sym_check(all.size() == n + 4 + first + second, "all classes described so far are listed"); break; }
    }
    sym_check(first || !second, "classes appear in the order they are described in");
    for (unsigned i = 0; i < n; i++) sym_check(reg.klass_exists(100 + i) && reg.get_klass(old[i]) && reg.get_klass(old[i])->get_id() == 100 + i, "a described class stays known");
    reader.join();
    sym_check(reg.get_klasses().size() == n + 6 && reg.klass_exists(50) && reg.klass_exists(51), "all classes described are known");
    sym_reached("done");
}
#else
extern "C" void harness(void)
{
    KlassRegister reg;
    core(1, "HT_Event"); coref("klass_id", "uint32_t", FieldTypeId::UINT32); coref("timestamp", "uint64_t", FieldTypeId::UINT64); coref("id", "uint64_t", FieldTypeId::UINT64);
    core(0, "HT_EndiannessInfoEvent"); coref("endianness", "uint8_t", FieldTypeId::UINT8);
    core(2, "HT_EventKlassInfoEvent"); coref("info_klass_id", "uint32_t", FieldTypeId::UINT32); coref("event_klass_name", "const char*", FieldTypeId::STRING); coref("field_count", "uint8_t", FieldTypeId::UINT8);
    core(3, "HT_EventKlassFieldInfoEvent"); coref("info_klass_id", "uint32_t", FieldTypeId::UINT32); coref("field_type", "const char*", FieldTypeId::STRING); coref("field_name", "const char*", FieldTypeId::STRING); coref("size", "uint64_t", FieldTypeId::UINT64); coref("data_type", "uint8_t", FieldTypeId::UINT8);
    check(reg);
    auto ki = reg.get_klass(2u), fi = reg.get_klass(3u);
    auto describe = [&](uint32_t id, const char* name, uint8_t count) {
        Event e(ki);
        e.set_value(ki->get_field("info_klass_id", false).get(), id);
        e.set_value(ki->get_field("event_klass_name", false).get(), dup(name));
        e.set_value(ki->get_field("field_count", false).get(), count);
        reg.handle_register_events(e);
        if (!by_id(id)) { model[nm].id = id; model[nm].name = name; model[nm++].n = 0; }
    };
    auto describe_field = [&](uint32_t id, const char* fname, const char* type, uint64_t size, uint8_t dt) {
        bool threw = false;
        Event e(fi);
        e.set_value(fi->get_field("info_klass_id", false).get(), id);
        e.set_value(fi->get_field("field_type", false).get(), dup(type));
        e.set_value(fi->get_field("field_name", false).get(), dup(fname));
        e.set_value(fi->get_field("size", false).get(), size);
        e.set_value(fi->get_field("data_type", false).get(), dt);
        FieldTypeId t;
        MK* k = by_id(id);
        bool core = id >= 1 && id <= 3, ok = core || (k && valid(size, dt, &t));
        int tk = ok && !core && t == FieldTypeId::STRUCT ? by_name(type) : -1;
        bool recursive = tk >= 0 && contains(tk, id);
        try { reg.handle_register_events(e); } catch (const std::exception&) { threw = true; }
        sym_check(threw == (!ok || recursive), "exactly the descriptions which make no sense are refused");
        if (!threw && !core)
        {
            bool dupl = false;
            for (unsigned i = 0; i < k->n; i++) dupl |= !strcmp(k->f[i].name, fname);
            if (!dupl) k->f[k->n++] = MF{fname, type, t, tk};
        }
    };
    unsigned ops = OPS, first = 1;
    if (sym_choice("embedding", 2)) /* a class with a class in it */
    {
        describe(ids[0], names[0][0], 2);
        describe(ids[1], names[1][0], 1);
        describe_field(ids[1], "x", "uint8_t", 1, DT_UINT);
        describe_field(ids[0], "y", types[1], 8, DT_STRUCT);
        ops = OPS - 1; first = 0;
    }
    for (unsigned op = 0; op < ops; op++)
    {
        unsigned which = op < first ? 0 : sym_choice("id", 3);
        if (op == first) sym_assume(which == ONLY);
        uint32_t id = ids[which];
        if (op < first || sym_choice("what", 2) == 0) describe(id, names[which][by_id(id) ? sym_choice("name", 2) : 0], (uint8_t)sym_u8("count"));
        else
        {
            const char *fname = fields[sym_choice("field", 2)], *type = "uint32_t";
            bool last = op == ops - 1;
            uint8_t dt = last ? sym_u8("data_type") : sym_choice("struct", 2) ? DT_STRUCT : DT_UINT;
            uint64_t size = last ? sym_u64("size") : 4;
            if (dt == DT_STRUCT) type = types[sym_choice("type", 3)];
            if (which == 2 && op < 2) id += sym_choice("core", 3);
            describe_field(id, fname, type, size, dt);
        }
    }
    check(reg);
    sym_reached("done");
}
#endif
