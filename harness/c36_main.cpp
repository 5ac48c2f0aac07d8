/* C36: the client program writes the conversion asked for to the file asked for. */
#include "json.hpp"
#include "stdio_model.hpp"
#include "reader.hpp"
#include <time.h>
#include <string>
int client_main(int argc, char** argv);
extern "C" {
static struct tm now;
time_t hs_time(time_t* t) { if (t) *t = 86400; return 86400; }
struct tm* hs_localtime(const time_t*) { now.tm_year = 123; now.tm_mon = 10; now.tm_mday = 9; now.tm_hour = 8; now.tm_min = 7; now.tm_sec = 6; now.tm_wday = 4; now.tm_yday = 312; return &now; }
struct tm* hs_localtime_r(const time_t* t, struct tm* r) { *r = *hs_localtime(t); return r; }
int hs_getchar(void) { return '\n'; }
#ifndef NATIVE_REPLAY
size_t hs_strftime(char* p, size_t n, const char* f, const struct tm* t)
{
    std::string r;
    for (; *f; f++)
    {
        if (*f != '%') { r += *f; continue; }
        int v;
        switch (*++f)
        {
        case 'd': v = t->tm_mday; break;
        case 'm': v = t->tm_mon + 1; break;
        case 'Y': v = t->tm_year + 1900; break;
        case 'H': v = t->tm_hour; break;
        case 'M': v = t->tm_min; break;
        case 'S': v = t->tm_sec; break;
        default: sym_assume(0); v = 0;
        }
        if (v > 999) { r += (char)('0' + v / 1000); r += (char)('0' + v / 100 % 10); }
        r += (char)('0' + v / 10 % 10); r += (char)('0' + v % 10);
    }
    if (r.size() + 1 > n) return 0;
    memcpy(p, r.c_str(), r.size() + 1);
    return r.size();
}
#endif
}
struct Want { std::string name; uint64_t ts, dur; unsigned tid; };
static std::vector<Want> want;
static bool has_output(const std::string& n) { std::vector<Sym> o; return file_read(n.c_str(), o); }
static bool starts(const std::vector<Sym>& s, size_t& i, const char* t)
{
    for (size_t k = 0; t[k]; k++) if (i + k >= s.size() || s[i + k].ch != (unsigned char)t[k]) return false;
    i += strlen(t);
    return true;
}
extern "C" void harness(void)
{
    file_clean();
    /* the recording */
    Bytes b(900);
    unsigned events = ARGS ? 1 : sym_choice("events", EVENTS + 1);
    b.klass(9, "HT_StringMappingEvent", 3); b.field(9, "HT_Event", "base", 20, DT_STRUCT); b.field(9, "uint64_t", "identifier", 8, DT_UINT); b.field(9, "const char*", "label", 8, DT_STRING);
    b.klass(50, "Text", 4); b.field(50, "HT_Event", "base", 20, DT_STRUCT); b.field(50, "uint64_t", "duration", 8, DT_UINT); b.field(50, "uint32_t", "thread_id", 4, DT_UINT); b.field(50, "const char*", "label", 8, DT_STRING);
    b.klass(51, "Number", 4); b.field(51, "HT_Event", "base", 20, DT_STRUCT); b.field(51, "uint64_t", "duration", 8, DT_UINT); b.field(51, "uint32_t", "thread_id", 4, DT_UINT); b.field(51, "uint64_t", "label", 8, DT_UINT);
    unsigned maps = ARGS || events < 2 ? sym_choice("map", 3) : 1; /* none, one, one which is not there and one which is */
    bool told = !ARGS && sym_choice("told", 2);
    if (told) { b.head(9, 1, 1); b.num(6, 8); b.str("six"); }
    for (unsigned i = 0; i < events; i++)
    {
        Want w{"", sym_u64("ts"), sym_u64("dur"), 1 + (i ? sym_choice("tid", 2) : 0)};
        unsigned kind = ARGS ? 1 : sym_choice("kind", 3);
        b.head(kind ? 51 : 50, w.ts, i); b.num(w.dur, 8); b.num(w.tid, 4);
        if (!kind) { b.str("text"); w.name = "text"; }
        else { b.num(kind == 1 ? 5 : 6, 8); w.name = kind == 1 ? (maps ? "five" : "5") : (told ? "six" : "6"); }
        if (!ARGS && i == events - 1 && sym_choice("cut", 2)) b.n--; else want.push_back(w); /* a recording broken off */
    }
    file_make("trace.bin", (const char*)b.p, b.n);
    file_make("m.map", "some five 5\n", 12);
    unsigned made = 2;
    /* the command line */
    static const char* const formats[] = {nullptr, "chrome-tracing", "callgrind", "nonsense"};
    std::string longname(200, 'n');
    static const std::string outputs[] = {"", "out.bin", "d-%Y-%m-%d.x", longname, longname.substr(0, 100) + "%Y%Y%Y%Y%Y%Y%Y%Y%Y%Y"};
    static const std::string results[] = {"hawktracer-trace-09-11-2023-08_07_06.httrace", "out.bin", "d-2023-11-09.x", longname, longname.substr(0, 100) + "2023202320232023202320232023202320232023"};
    unsigned form = ARGS ? sym_choice("args", 5) : 0; /* as it should be; a source which is not there; no source; help; an unknown option */
    unsigned format = form > 1 ? 0 : ARGS ? sym_choice("format", 4) : 1 + sym_choice("format", 2), output = form <= 1 && ARGS ? sym_choice("output", 5) : 1;
    std::vector<std::string> args{"client"};
    auto opt = [&](const char* n, const std::string& v) { args.push_back(n); args.push_back(v); };
    if (formats[format]) opt("--format", formats[format]);
    if (form != 2) opt("--source", form == 1 ? "gone.bin" : "trace.bin");
    if (output) opt("--output", outputs[output]);
    if (maps) opt("--map", maps == 1 ? "m.map" : "gone.map,m.map");
    if (form == 3) args.push_back("--help");
    if (form == 4) opt("--nonsense", "x");
    std::vector<char*> argv;
    for (auto& a : args) argv.push_back(&a[0]);
    argv.push_back(nullptr);
    int rc = client_main((int)args.size(), argv.data());
    sym_observe("rc", (unsigned)rc);
    sym_check((rc == 0) == (form == 0 && format != 3), "the program succeeds exactly when it could do what was asked");
    const std::string& out = results[output];
    std::vector<Sym> o;
    if (rc)
    {
        if (form != 1) sym_check(file_count() == made, "nothing is written when nothing was converted");
        sym_reached("refused");
        return;
    }
    if (format < 2)
    {
        sym_check(file_read(out.c_str(), o), "the output is written to the file asked for");
        sym_check(file_count() == made + 1, "nothing else is written");
        Json j = JsonReader(o).document();
        sym_check(j.kind == Json::OBJ && j.get("traceEvents") && j.get("traceEvents")->kind == Json::ARR, "the output holds an array of trace events");
        const std::vector<Json>& a = j.get("traceEvents")->vals;
        sym_check(a.size() == want.size(), "every recorded span is shown exactly once");
        for (size_t i = 0; i < a.size(); i++)
        {
            const Json *n = a[i].get("name"), *ts = a[i].get("ts"), *dur = a[i].get("dur"), *tid = a[i].get("tid");
            sym_check(n && ts && dur && tid && n->str == want[i].name && ts->num == want[i].ts / 1000 && dur->num == want[i].dur / 1000 && tid->num == want[i].tid, "a recorded span is shown as it was");
        }
    }
    else
    {
        for (unsigned t = 1; t <= 2; t++)
        {
            unsigned n = 0;
            const Want* only = nullptr;
            for (auto& w : want) if (w.tid == t) { n++; only = &w; }
            std::string f = out + (t == 1 ? ".1" : ".2");
            sym_check(file_read(f.c_str(), o) == (n > 0), "there is a profile of every thread and of no other");
            if (!n) continue;
            made++;
            if (n > 1) continue;
            std::string fn = "fn=" + only->name + "()\n1 ";
            bool found = false;
            for (size_t i = 0; i < o.size(); i++)
            {
                size_t k = i;
                uint64_t v; bool neg;
                if (starts(o, k, fn.c_str())) { sym_check(!found, "a span is shown once"); found = true; sym_check(take_number(o, k, v, neg) && !neg && v == only->dur, "a span is shown with its duration"); }
            }
            sym_check(found, "a recorded span is shown in its thread's profile");
        }
        sym_check(file_count() == made, "nothing else is written");
    }
    sym_reached("converted");
}
