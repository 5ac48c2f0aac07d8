/* C19: the callgrind output follows from the nesting of the received spans. */
#include "files.hpp"
#include "client.hpp"
#include <client/callgrind_converter.hpp>
using HawkTracer::client::CallgrindConverter;
struct Node { std::string name; uint64_t total, kids, calls; std::vector<int> sub; int parent; };
static std::vector<Node> node[2]; /* node 0 of a thread: its root, not a call */
struct Open { int label; uint64_t start; int node; };
static const char* const labels[] = {"a", "b()", "a'b"};
static const uint32_t tids[2] = {0, 4000000000u};
static int child(std::vector<Node>& t, int p, const std::string& name)
{
    std::string full = name + "()" + (p ? "'" + t[p].name : std::string());
    for (int c : t[p].sub) if (t[c].name == full) return c;
    t.push_back(Node{full, 0, 0, 0, {}, p});
    t[p].sub.push_back((int)t.size() - 1);
    return (int)t.size() - 1;
}
static void report(CallgrindConverter& c, unsigned th, unsigned kind, int label, uint64_t start, uint64_t dur)
{
    auto k = klass(20 + kind, "Span");
    keep.push_back(k);
    Event e(k);
    head(e, k, start);
    add(e, k, "duration", FieldTypeId::UINT64, dur);
    add(e, k, "thread_id", FieldTypeId::UINT32, tids[th]);
    if (kind == 0) adds(e, k, "label", strdup(labels[label]));
    else add(e, k, "label", FieldTypeId::UINT64, 70 + (uint64_t)label);
    c.process_event(e);
}
static void map_label(CallgrindConverter& c, unsigned i)
{
    auto k = klass(9, "HT_StringMappingEvent");
    keep.push_back(k);
    Event e(k);
    head(e, k, 1);
    add(e, k, "identifier", FieldTypeId::UINT64, 70 + i); adds(e, k, "label", strdup(labels[i]));
    c.process_event(e);
}
static bool line(const std::vector<Sym>& f, size_t& i, std::vector<Sym>& out)
{
    out.clear();
    if (i >= f.size()) return false;
    while (i < f.size() && f[i].ch != '\n') out.push_back(f[i++]);
    sym_check(i < f.size(), "every line is ended");
    i++;
    return true;
}
static bool starts(const std::vector<Sym>& l, const char* s, std::string* rest)
{
    size_t n = strlen(s);
    if (l.size() < n) return false;
    for (size_t i = 0; i < n; i++) if (l[i].ch != s[i]) return false;
    if (rest) { rest->clear(); for (size_t i = n; i < l.size(); i++) { sym_check(l[i].ch < 256, "names are text"); rest->push_back((char)l[i].ch); } }
    return true;
}
static uint64_t number(const std::vector<Sym>& l, size_t& i)
{
    uint64_t v; bool neg;
    sym_check(take_number(l, i, v, neg) && !neg, "costs and counts are written as non-negative numbers");
    return v;
}
static uint64_t cost(const std::vector<Sym>& l)
{
    size_t i = 0;
    number(l, i); /* the position: this profile has none */
    sym_check(i < l.size() && l[i].ch == ' ', "a cost follows its position");
    i++;
    uint64_t v = number(l, i);
    sym_check(i == l.size(), "one cost per line");
    return v;
}
static void check(unsigned th)
{
    auto& t = node[th];
    std::vector<Sym> f, l;
    std::string name = "out." + std::to_string(tids[th]), rest;
    if (t.size() == 1) { sym_check(!file_read(name.c_str(), f), "a thread without spans has no file"); return; }
    sym_check(file_read(name.c_str(), f), "every thread with spans has its file");
    size_t i = 0;
    int fn = 0;
    bool header = false, events = false, thread = false;
    std::vector<int> seen(t.size()), called(t.size());
    sym_check(line(f, i, l) && starts(l, "# callgrind format", &rest) && rest.empty(), "the file says it is a callgrind profile");
    while (line(f, i, l))
    {
        if (l.empty()) continue;
        if (starts(l, "events: Duration", &rest)) { events = true; continue; }
        if (starts(l, "thread: ", nullptr)) { size_t p = 8; sym_check(number(l, p) == tids[th] && p == l.size(), "the profile names its thread"); thread = true; continue; }
        if (starts(l, "fn=", &rest))
        {
            fn = 0;
            for (size_t j = 1; j < t.size(); j++) if (t[j].name == rest) fn = (int)j;
            sym_check(fn != 0, "every function shown was called that way");
            sym_check(!seen[fn]++, "every function is shown once per caller");
            sym_check(line(f, i, l) && cost(l) == t[fn].total - t[fn].kids, "a function's own cost is its duration without that of the spans directly inside");
            continue;
        }
        sym_check(fn != 0 && starts(l, "cfn=", &rest), "only functions and their calls are listed");
        int c = 0;
        for (int j : t[fn].sub) if (t[j].name == rest) c = j;
        sym_check(c != 0, "only spans inside a span are listed as its calls");
        sym_check(!called[c]++, "every callee is listed once");
        sym_check(line(f, i, l) && starts(l, "calls=", nullptr), "a callee has its number of calls");
        size_t p = 6;
        sym_check(number(l, p) == t[c].calls, "calls are counted");
        sym_check(line(f, i, l) && cost(l) == t[c].total, "a call costs the duration of its spans");
    }
    sym_check(events && thread, "the profile has its header");
    (void)header;
    for (size_t j = 1; j < t.size(); j++)
    {
        sym_check(seen[j] == 1, "every function is shown");
        sym_check(called[j] == (t[j].parent != 0), "every call is listed at its caller");
    }
}
extern "C" void harness(void)
{
    file_clean();
    uint64_t now[2] = {0, 0};
    bool stopped[2] = {false, false};
    std::vector<Open> st[2];
    {
        CallgrindConverter c;
        sym_check(c.init("out"), "the converter starts");
        announce_mappings(c, 9);
        for (unsigned i = 0; i < 3; i++) map_label(c, i);
        for (unsigned t = 0; t < 2; t++) node[t].push_back(Node{"", 0, 0, 0, {}, 0});
        unsigned started = 0;
        for (;;)
        {
            unsigned th = THREADS > 1 && started ? sym_choice("thread", 2) : 0;
            bool can_start = started < SPANS, can_stop = !st[th].empty();
            if (!can_start && !can_stop) { sym_assume(st[0].empty() && st[1].empty()); break; }
            bool start = can_start && (!can_stop || sym_choice("start", 2));
            /* a span that starts right where its predecessor ended could as well be inside it: times tell them apart */
            uint64_t gap = sym_u32("gap");
            if (start && stopped[th]) sym_assume(gap > 0);
            now[th] += gap;
            stopped[th] = !start;
            if (start)
            {
                int label = (int)sym_choice("label", LABELS);
                st[th].push_back(Open{label, now[th], child(node[th], st[th].empty() ? 0 : st[th].back().node, labels[label])});
                started++;
            }
            else
            {
                Open o = st[th].back();
                st[th].pop_back();
                uint64_t dur = now[th] - o.start;
                Node& n = node[th][o.node];
                n.total += dur; n.calls++;
                if (n.parent) node[th][n.parent].kids += dur;
                report(c, th, started & 1, o.label, o.start, dur);
            }
        }
        c.stop();
    }
    unsigned files = 0;
    for (unsigned t = 0; t < 2; t++) { check(t); files += node[t].size() > 1; }
    sym_check(file_count() == files, "one file per thread with spans");
    sym_observe("spans", SPANS);
    sym_reached("done");
}
