/* A strict reader of JSON for checking output. */
#ifndef HARNESS_JSON_HPP
#define HARNESS_JSON_HPP
#include "files.hpp"
struct Json {
    enum Kind { NUM, STR, OBJ, ARR } kind = NUM;
    uint64_t num = 0; bool neg = false;
    std::string str;
    std::vector<std::string> keys;
    std::vector<Json> vals;
    const Json* get(const char* k) const { for (size_t i = 0; i < keys.size(); i++) if (keys[i] == k) return &vals[i]; return nullptr; }
};
struct JsonReader {
    const std::vector<Sym>& s; size_t i = 0;
    explicit JsonReader(const std::vector<Sym>& s_) : s(s_) {}
    void need(bool ok) { sym_check(ok, "the output is well-formed JSON"); }
    int peek() { return i < s.size() ? s[i].ch : -1; }
    void ws() { while (peek() == ' ' || peek() == '\n' || peek() == '\t' || peek() == '\r') i++; }
    void lit(char c) { need(peek() == (unsigned char)c); i++; }
    unsigned hex() { int c = peek(); i++; if (c >= '0' && c <= '9') return (unsigned)(c - '0'); if (c >= 'a' && c <= 'f') return (unsigned)(c - 'a' + 10); if (c >= 'A' && c <= 'F') return (unsigned)(c - 'A' + 10); need(false); return 0; }
    std::string string()
    {
        std::string r;
        lit('"');
        while (peek() != '"')
        {
            int c = peek();
            need(c >= 0x20 && c < 256); i++;
            if (c == '\\')
            {
                c = peek(); i++;
                switch (c)
                {
                case '"': case '\\': case '/': break;
                case 'b': c = 8; break; case 'f': c = 12; break; case 'n': c = 10; break; case 'r': c = 13; break; case 't': c = 9; break;
                case 'u': { unsigned v = hex() << 12; v |= hex() << 8; v |= hex() << 4; v |= hex(); need(v < 0x80); c = (int)v; break; }
                default: need(false);
                }
            }
            r += (char)c;
        }
        i++;
        return r;
    }
    Json value()
    {
        Json j;
        ws();
        int c = peek();
        if (c == '"') { j.kind = Json::STR; j.str = string(); }
        else if (c == '{' || c == '[')
        {
            bool o = c == '{';
            j.kind = o ? Json::OBJ : Json::ARR;
            i++; ws();
            if (peek() == (o ? '}' : ']')) { i++; return j; }
            for (;;)
            {
                ws();
                if (o) { j.keys.push_back(string()); ws(); lit(':'); }
                j.vals.push_back(value());
                ws();
                if (peek() == ',') { i++; continue; }
                lit(o ? '}' : ']');
                break;
            }
        }
        else need(take_number(s, i, j.num, j.neg));
        return j;
    }
    Json document() { Json j = value(); ws(); need(i == s.size()); return j; }
};
#endif
