/* Stand-in for libstdc++'s streams under the symbolic executor: formatted output goes to an in-memory
 * file store, symbol by symbol; a number is one symbol (its value), so no case split on its digits. */
#ifndef SHADOW_IOSTREAM
#define SHADOW_IOSTREAM
#include <iosfwd>
#include <string>
#include <vector>
#include <stdint.h>
#include <stdlib.h>
struct ShadowSym { uint16_t ch; uint64_t num; };          /* ch 256: the unsigned number num, 257: the signed one */
struct ShadowFile { std::string name; std::vector<ShadowSym> data; bool fail_write, fail_read; int open; };
extern std::vector<ShadowFile*> shadow_files;             /* defined by files.hpp in the harness */
ShadowFile* shadow_find(const std::string& name);
ShadowFile* shadow_create(const std::string& name);
namespace std {
class ios_base {
public:
    typedef unsigned openmode; typedef int fmtflags;
    static const openmode in = 1, out = 2, binary = 4, trunc = 8, app = 16, ate = 32;
};
template <> class basic_ios<char, char_traits<char>> : public ios_base {};
template <> class basic_ostream<char, char_traits<char>> {
public:
    ShadowFile* f_ = nullptr; bool bad_ = false;
    basic_ostream() {}
    virtual ~basic_ostream() {}
    void put_(char c) { if (f_) f_->data.push_back(ShadowSym{(uint16_t)(unsigned char)c, 0}); }
    void num_(uint64_t v, bool sg) { if (f_) f_->data.push_back(ShadowSym{(uint16_t)(sg ? 257 : 256), v}); }
    basic_ostream& write(const char* s, streamsize n) { for (streamsize i = 0; i < n; i++) put_(s[i]); return *this; }
    basic_ostream& put(char c) { put_(c); return *this; }
    basic_ostream& flush() { return *this; }
    bool good() const { return !bad_; }
    bool fail() const { return bad_; }
    bool bad() const { return bad_; }
    explicit operator bool() const { return !bad_; }
    bool operator!() const { return bad_; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(ios_base& (*)(ios_base&)) { return *this; }
    basic_ostream& operator<<(long v) { if (v >= 0) num_((uint64_t)v, false); else num_((uint64_t)v, true); return *this; }
    basic_ostream& operator<<(unsigned long v) { num_(v, false); return *this; }
    basic_ostream& operator<<(long long v) { return *this << (long)v; }
    basic_ostream& operator<<(unsigned long long v) { num_(v, false); return *this; }
    basic_ostream& operator<<(int v) { return *this << (long)v; }
    basic_ostream& operator<<(unsigned v) { num_(v, false); return *this; }
    basic_ostream& operator<<(short v) { return *this << (long)v; }
    basic_ostream& operator<<(unsigned short v) { num_(v, false); return *this; }
    basic_ostream& operator<<(bool v) { num_(v, false); return *this; }
    basic_ostream& operator<<(const void* v) { num_((uint64_t)v, false); return *this; }
};
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const char* s) { for (; *s; s++) o.put_(*s); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, char c) { o.put_(c); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, unsigned char c) { o.put_((char)c); return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, const string& s) { for (size_t i = 0; i < s.size(); i++) o.put_(s[i]); return o; }
inline basic_ostream<char>& endl(basic_ostream<char>& o) { o.put_('\n'); return o; }
inline basic_ostream<char>& flush(basic_ostream<char>& o) { return o; }
inline ios_base& left(ios_base& b) { return b; }
inline ios_base& right(ios_base& b) { return b; }
inline ios_base& dec(ios_base& b) { return b; }
inline ios_base& hex(ios_base& b) { return b; }
struct setw_ { int n; };
inline setw_ setw(int n) { return setw_{n}; }
struct setfill_ { char c; };
inline setfill_ setfill(char c) { return setfill_{c}; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, setw_) { return o; }
inline basic_ostream<char>& operator<<(basic_ostream<char>& o, setfill_) { return o; }

template <> class basic_ofstream<char, char_traits<char>> : public basic_ostream<char> {
public:
    bool open_ = false;
    basic_ofstream() {}
    explicit basic_ofstream(const string& n, ios_base::openmode m = ios_base::out) { open(n, m); }
    explicit basic_ofstream(const char* n, ios_base::openmode m = ios_base::out) { open(n, m); }
    ~basic_ofstream() { close(); }
    void open(const string& n, ios_base::openmode m = ios_base::out)
    {
        if (open_) { bad_ = true; return; }
        ShadowFile* f = shadow_create(n);
        if (f->fail_write) { bad_ = true; return; }
        if (!(m & ios_base::app)) f->data.clear();
        f_ = f; open_ = true; f->open++; bad_ = false;
    }
    bool is_open() const { return open_; }
    void close() { if (open_) { f_->open--; open_ = false; f_ = nullptr; } }
};
template <> class basic_istream<char, char_traits<char>> {
public:
    ShadowFile* f_ = nullptr; size_t pos_ = 0; bool bad_ = false, eof_ = false;
    basic_istream() {}
    virtual ~basic_istream() {}
    int peek_() { return f_ && pos_ < f_->data.size() ? f_->data[pos_].ch : -1; }
    bool good() const { return !bad_ && !eof_; }
    bool eof() const { return eof_; }
    bool fail() const { return bad_; }
    explicit operator bool() const { return !bad_; }
    bool operator!() const { return bad_; }
    static bool space_(int c) { return c == ' ' || (c >= 9 && c <= 13); }
    bool skip_()
    {
        if (!good()) { bad_ = true; return false; }
        while (peek_() >= 0 && space_(peek_())) pos_++;
        if (peek_() < 0) { eof_ = bad_ = true; return false; }
        return true;
    }
    basic_istream& operator>>(uint64_t& v) /* base 10, as strtoull: optional sign, digits; out of range fails with the maximum */
    {
        if (!skip_()) return *this;
        bool neg = false, any = false, over = false;
        uint64_t r = 0;
        if (peek_() == '+' || peek_() == '-') { neg = peek_() == '-'; pos_++; }
        while (peek_() >= '0' && peek_() <= '9')
        {
            unsigned d = (unsigned)(peek_() - '0');
            if (r > 1844674407370955161ull || (r == 1844674407370955161ull && d > 5)) over = true;
            r = r * 10 + d;
            any = true; pos_++;
        }
        if (peek_() < 0) eof_ = true;
        if (!any) { v = 0; bad_ = true; return *this; }
        if (over) { v = ~0ull; bad_ = true; return *this; }
        v = neg ? (uint64_t)-r : r;
        return *this;
    }
    template <typename T> basic_istream& small_(T& v, uint64_t max)
    {
        uint64_t r = 0;
        *this >> r;
        if (r > max) { bad_ = true; r = max; } /* signs are not modelled for narrow types */
        v = (T)r;
        return *this;
    }
    basic_istream& operator>>(unsigned long long& v) { uint64_t r = 0; *this >> r; v = r; return *this; }
    basic_istream& operator>>(unsigned& v) { return small_(v, 0xFFFFFFFFu); }
    basic_istream& operator>>(unsigned short& v) { return small_(v, 0xFFFFu); }
    basic_istream& get(char& c) { if (peek_() < 0) { eof_ = bad_ = true; } else c = (char)f_->data[pos_++].ch; return *this; }
    int get() { if (peek_() < 0) { eof_ = bad_ = true; return -1; } return f_->data[pos_++].ch; }
};
inline basic_istream<char>& operator>>(basic_istream<char>& i, string& s)
{
    if (!i.skip_()) return i;
    s.clear();
    while (i.peek_() >= 0 && !basic_istream<char>::space_(i.peek_())) s += (char)i.f_->data[i.pos_++].ch;
    if (i.peek_() < 0) i.eof_ = true;
    return i;
}
inline basic_istream<char>& getline(basic_istream<char>& i, string& s, char delim = '\n')
{
    if (!i.good()) { i.bad_ = true; return i; }
    s.clear();
    bool any = false;
    while (i.peek_() >= 0)
    {
        char c = (char)i.f_->data[i.pos_++].ch;
        any = true;
        if (c == delim) return i;
        s += c;
    }
    i.eof_ = true;
    if (!any) i.bad_ = true;
    return i;
}
template <> class basic_ifstream<char, char_traits<char>> : public basic_istream<char> {
public:
    bool open_ = false;
    basic_ifstream() {}
    explicit basic_ifstream(const string& n, ios_base::openmode = ios_base::in) { open(n); }
    explicit basic_ifstream(const char* n, ios_base::openmode = ios_base::in) { open(n); }
    ~basic_ifstream() { close(); }
    void open(const string& n, ios_base::openmode = ios_base::in)
    {
        ShadowFile* f = shadow_find(n);
        if (!f || f->fail_read) { bad_ = true; return; }
        f_ = f; pos_ = 0; open_ = true; bad_ = eof_ = false;
    }
    bool is_open() const { return open_; }
    void close() { open_ = false; f_ = nullptr; }
};
/* string streams: what was written is expanded to text when asked for */
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char> {
public:
    ShadowFile own_{"", {}, false, false, 0};
    basic_ostringstream() { f_ = &own_; }
    explicit basic_ostringstream(ios_base::openmode) { f_ = &own_; }
    basic_ostringstream(const basic_ostringstream&) = delete;
    string str() const
    {
        string r;
        for (auto& s : own_.data)
            if (s.ch < 256) r += (char)s.ch;
            else if (s.ch == 256) r += to_string(s.num);
            else r += to_string((long long)s.num);
        return r;
    }
    void str(const string& s) { own_.data.clear(); for (char c : s) put_(c); }
};
template <> class basic_istringstream<char, char_traits<char>, allocator<char>> : public basic_istream<char> {
public:
    ShadowFile own_{"", {}, false, false, 0};
    basic_istringstream() { f_ = &own_; }
    explicit basic_istringstream(const string& s, ios_base::openmode = ios_base::in) { str(s); }
    basic_istringstream(const basic_istringstream&) = delete;
    void str(const string& s) { own_.data.clear(); for (char c : s) own_.data.push_back(ShadowSym{(uint16_t)(unsigned char)c, 0}); f_ = &own_; pos_ = 0; }
};
extern basic_ostream<char> cout, cerr, clog;
}
#endif
