/* C20: a label id resolves to what was mapped to it last, by the stream or by a map file. */
#include "files.hpp"
#include "client.hpp"
#include <client/tracepoint_map.hpp>
using HawkTracer::client::TracepointMap;
struct Entry { uint64_t id; std::string label, category; };
static std::vector<Entry> model;
static void set(uint64_t id, const std::string& l, const std::string& c)
{
    for (auto& e : model) if (e.id == id) { e.label = l; e.category = c; return; }
    model.push_back(Entry{id, l, c});
}
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
/* reference reader: entries "category label id" separated by blanks; a malformed entry ends the file */
static void read(const std::string& t, bool apply)
{
    size_t i = 0;
    for (;;)
    {
        std::string word[2];
        for (auto& w : word)
        {
            while (i < t.size() && blank(t[i])) i++;
            while (i < t.size() && !blank(t[i])) w += t[i++];
        }
        while (i < t.size() && blank(t[i])) i++;
        size_t from = i;
        uint64_t v = 0;
        bool over = false;
        if (i < t.size()) sym_assume(t[i] != '-' && t[i] != '+'); /* ids are written without a sign */
        for (; i < t.size() && t[i] >= '0' && t[i] <= '9'; i++) { if (i - from >= 19 && (i - from > 19 || v > UINT64_MAX / 10 || (v == UINT64_MAX / 10 && t[i] > '5'))) over = true; v = v * 10 + (uint64_t)(t[i] - '0'); }
        if (word[1].empty() || i == from || over) return;
        if (apply) set(v, word[1], word[0]);
    }
}
static const char* const texts[] = {
    "",
    "lua  f 1\nnative g<int>(x) 18446744073709551615\n",
    "\n\t native h 1 default i 2 x",
    "c l 18446744073709551616\nd m 1\n",
    "c l 1x y 2\n",
    "c l x 1 d m 2",
};
static const uint64_t lookups[] = {0, 1, 2, UINT64_MAX, 12};
extern "C" void harness(void)
{
    file_clean();
    TracepointMap m;
    static const char* const names[2] = {"one.map", "two"};
    std::string content[2];
    for (unsigned f = 0; f < 2; f++)
    {
        if (FREE && f == 0)
        {
            content[f] = "c l ";
            unsigned n = sym_choice("len", LEN + 1);
            for (unsigned i = 0; i < n; i++) content[f] += (char)sym_u8("ch");
        }
        if (FREE) file_make(names[f], content[f].data(), content[f].size());
    }
    bool made[2] = {FREE, FREE};
    auto need = [&](unsigned f) { /* the files' content is chosen when first used */
        if (made[f]) return;
        made[f] = true;
        content[f] = texts[f ? 2 * sym_choice("text", 3) + 1 : sym_choice("text", 6)];
        file_make(names[f], content[f].data(), content[f].size());
    };
    for (unsigned op = 0; op < OPS; op++)
    {
        unsigned what = FREE ? 1 : sym_choice("op", 7);
        switch (what)
        {
        case 0: /* announced in the stream */
        {
            uint64_t id = lookups[sym_choice("id", 3)];
            std::string l = sym_choice("label", 2) ? "first label" : "";
            m.add_map_entry(id, l);
            set(id, l, "default");
            break;
        }
        case 1: case 2: /* one file */
            need(what - 1);
            sym_check(m.load_map(names[what - 1]), "an existing map file is read");
            read(content[what - 1], true);
            break;
        case 3: need(0); need(1); m.load_maps(sym_choice("lead", 2) ? ",one.map,two" : "one.map,two"); read(content[0], true); read(content[1], true); break;
        case 4: need(0); need(1); m.load_maps("two,missing,,one.map"); read(content[1], true); read(content[0], true); break;
        case 5: sym_check(!m.load_map("missing"), "a missing map file is reported"); break;
        default: m.get_label_info(1); break; /* asking does not define anything */
        }
    }
    uint64_t ids[8] = {0};
    unsigned n = 0;
    for (uint64_t id : lookups) ids[n++] = id;
    if (FREE) for (auto& e : model) if (n < 8) ids[n++] = e.id;
    for (unsigned i = 0; i < n; i++)
        for (unsigned again = 0; again < 2; again++)
        {
            auto r = m.get_label_info(ids[i]);
            const Entry* e = nullptr;
            for (auto& x : model) if (x.id == ids[i]) e = &x;
            if (e) sym_check(r.label == e->label && r.category == e->category, "an id resolves to the label and category mapped to it last");
            else { static const char* const digits[] = {"0", "1", "2", "18446744073709551615", "12"}; sym_check(i < 5 && r.label == digits[i] && r.category == "default", "an unknown id resolves to its number"); }
        }
    sym_observe("known", model.size());
    sym_reached("done");
}
