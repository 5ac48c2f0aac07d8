/* C18: the Chrome trace output is valid JSON holding exactly the received spans. */
#include "json.hpp"
#include "client.hpp"
#include <client/chrome_trace_converter.hpp>
using HawkTracer::client::ChromeTraceConverter;
struct Want { std::string name; uint64_t ts, dur, tid; unsigned nargs; struct { const char* k; bool str; std::string s; uint64_t v; bool neg; } args[8]; };
static std::vector<Want> want;
static std::string mapped[2]; static bool is_mapped[2];
static const uint64_t ids[2] = {7, 4000000000000000123ull};
static const char* const digits[2] = {"7", "4000000000000000123"};
static void event(ChromeTraceConverter& c)
{
    uint64_t ts = sym_u64("ts");
    unsigned kind = sym_choice("kind", 6);
    auto k = klass(kind == 0 ? 9 : 20 + kind, "Some");
    keep.push_back(k);
    Event e(k);
    Want w{"", ts, 0, 0, 0, {}};
    head(e, k, ts);
    switch (kind)
    {
    case 0: /* a mapping event is not shown but names later labels */
    {
        unsigned m = sym_choice("which", 2);
        char* t = text(1);
        mapped[m] = t; is_mapped[m] = true;
        add(e, k, "identifier", FieldTypeId::UINT64, ids[m]); adds(e, k, "label", t);
        c.process_event(e);
        return;
    }
    case 1:
    {
        unsigned m = sym_choice("which", 2);
        w.dur = sym_u64("dur"); w.tid = sym_u32("tid");
        add(e, k, "duration", FieldTypeId::UINT64, w.dur); add(e, k, "thread_id", FieldTypeId::UINT32, w.tid); add(e, k, "label", FieldTypeId::UINT64, ids[m]);
        w.name = is_mapped[m] ? mapped[m] : std::string(digits[m]);
        break;
    }
    case 2: { char* t = text(2); w.name = t; w.dur = sym_u64("dur"); w.tid = sym_u32("tid"); add(e, k, "duration", FieldTypeId::UINT64, w.dur); add(e, k, "thread_id", FieldTypeId::UINT32, w.tid); adds(e, k, "label", t); break; }
    case 3: { char* t = text(1); w.name = t; adds(e, k, "name", t); w.args[w.nargs].k = "name"; w.args[w.nargs].str = true; w.args[w.nargs++].s = t; break; }
    case 4: add(e, k, "other", FieldTypeId::UINT8, 3); c.process_event(e); return; /* nothing to show */
    default:
    {
        static const FieldTypeId ts_[] = {FieldTypeId::UINT8, FieldTypeId::INT8, FieldTypeId::UINT16, FieldTypeId::INT16, FieldTypeId::UINT32, FieldTypeId::INT32, FieldTypeId::UINT64, FieldTypeId::INT64};
        static const int64_t vs[] = {255, -128, 65535, -32768, 4294967295ll, -2147483647 - 1ll, -1, INT64_MIN};
        unsigned i = sym_choice("type", 8);
        bool zero = sym_choice("zero", 2);
        char* t = text(1);
        w.name = "fixed"; adds(e, k, "label", strdup("fixed"));
        const char* x = zero ? "name" : "extra"; /* a label comes before a name */
        adds(e, k, x, t); w.args[0].k = x; w.args[0].str = true; w.args[0].s = t;
        add(e, k, "n", ts_[i], zero ? 0 : (uint64_t)vs[i]); w.args[1].k = "n"; w.args[1].str = false; w.args[1].v = zero ? 0 : (uint64_t)vs[i]; w.args[1].neg = !zero && (i & 1);
        w.nargs = 2;
        break;
    }
    }
    c.process_event(e);
    if (w.name.size()) want.push_back(w);
}
extern "C" void harness(void)
{
    file_clean();
    {
        ChromeTraceConverter c;
        sym_check(c.init("out.json"), "the output file can be written");
        announce_mappings(c, 9);
        for (unsigned i = 0; i < EVENTS; i++) event(c);
        c.stop();
        if (want.size() == 1) c.stop(); /* stopping twice is harmless */
    }
    std::vector<Sym> out;
    sym_check(file_read("out.json", out), "the output file exists");
    Json j = JsonReader(out).document();
    sym_check(j.kind == Json::OBJ && j.get("traceEvents") && j.get("traceEvents")->kind == Json::ARR, "the output holds an array of trace events");
    const std::vector<Json>& a = j.get("traceEvents")->vals;
    sym_check(a.size() == want.size(), "every received span is shown exactly once");
    for (size_t i = 0; i < a.size(); i++)
    {
        const Want& w = want[i];
        const Json *n = a[i].get("name"), *ph = a[i].get("ph"), *ts = a[i].get("ts"), *dur = a[i].get("dur"), *pid = a[i].get("pid"), *tid = a[i].get("tid"), *args = a[i].get("args");
        sym_check(n && ph && ts && dur && pid && tid, "a trace event has its mandatory members");
        sym_check(n->kind == Json::STR && n->str == w.name, "a span is shown with its label");
        sym_check(ph->str == "X", "a span is shown as a complete event");
        sym_check(ts->kind == Json::NUM && !ts->neg && ts->num == w.ts / 1000, "a span is shown with its start in microseconds");
        sym_check(dur->kind == Json::NUM && !dur->neg && dur->num == w.dur / 1000, "a span is shown with its duration in microseconds");
        sym_check(tid->kind == Json::NUM && !tid->neg && tid->num == w.tid, "a span is shown on its thread");
        sym_check(args && args->kind == Json::OBJ && args->keys.size() == w.nargs, "a span is shown with its other fields");
        for (unsigned x = 0; x < w.nargs; x++)
        {
            const Json* v = args->get(w.args[x].k);
            sym_check(v && (w.args[x].str ? v->kind == Json::STR && v->str == w.args[x].s : v->kind == Json::NUM && v->neg == w.args[x].neg && v->num == w.args[x].v), "other fields are shown with their values");
        }
    }
    sym_observe("events", a.size());
    sym_reached("done");
}
