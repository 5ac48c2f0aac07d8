/* Events for the client's converters. */
#ifndef HARNESS_CLIENT_HPP
#define HARNESS_CLIENT_HPP
#include "sym.h"
#include <hawktracer/parser/event.hpp>
#include <hawktracer/parser/klass_register.hpp>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
using namespace HawkTracer::parser;
static std::shared_ptr<EventKlass> klass(uint32_t id, const char* name) { return std::make_shared<EventKlass>(name, id); }
static const EventKlassField* field(std::shared_ptr<EventKlass>& k, const char* n, FieldTypeId t) { k->add_field(std::unique_ptr<EventKlassField>(new EventKlassField(n, "t", t))); return k->get_field(n, false).get(); }
static char* text(unsigned max)
{
    unsigned n = sym_choice("len", max + 1);
    char* s = (char*)malloc(n + 1);
    for (unsigned i = 0; i < n; i++) { s[i] = (char)sym_u8("ch"); sym_assume(s[i] != 0); }
    s[n] = 0;
    return s;
}
static void add(Event& e, std::shared_ptr<EventKlass>& k, const char* n, FieldTypeId t, uint64_t v)
{
    FieldType f{};
    f.f_UINT64 = v;
    e.set_value(field(k, n, t), f);
}
static void adds(Event& e, std::shared_ptr<EventKlass>& k, const char* n, char* v) { FieldType f{}; f.f_STRING = v; e.set_value(field(k, n, FieldTypeId::STRING), f); }
static void head(Event& e, std::shared_ptr<EventKlass>& k, uint64_t ts) { add(e, k, "klass_id", FieldTypeId::UINT32, k->get_id()); add(e, k, "timestamp", FieldTypeId::UINT64, ts); add(e, k, "id", FieldTypeId::UINT64, sym_u64("id")); }
template <typename C> static void announce_mappings(C& c, uint32_t id)
{
    auto k = klass(2, "HT_EventKlassInfoEvent");
    Event e(k);
    add(e, k, "info_klass_id", FieldTypeId::UINT32, id); adds(e, k, "event_klass_name", strdup("HT_StringMappingEvent")); add(e, k, "field_count", FieldTypeId::UINT8, 3);
    c.process_event(e);
}
static std::vector<std::shared_ptr<EventKlass>> keep; /* events refer to their class's fields */
#endif
