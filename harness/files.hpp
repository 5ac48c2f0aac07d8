/* Files of a harness: an in-memory store under the symbolic executor, real files in the scratch directory of a native replay. */
#ifndef HARNESS_FILES_HPP
#define HARNESS_FILES_HPP
#include "sym.h"
#include <string>
#include <vector>
#include <stdint.h>
struct Sym { int ch; uint64_t num; }; /* ch 0..255; 256: a number written in decimal, 257: a negative one */
#ifndef NATIVE_REPLAY
#include "shadow_iostream.hpp"
std::vector<ShadowFile*> shadow_files;
namespace std { basic_ostream<char> cout, cerr, clog; }
ShadowFile* shadow_find(const std::string& n) { for (ShadowFile* f : shadow_files) if (f->name == n) return f; return nullptr; }
ShadowFile* shadow_create(const std::string& n)
{
    ShadowFile* f = shadow_find(n);
    if (f) return f;
    f = new ShadowFile{n, {}, false, false, 0};
    shadow_files.push_back(f);
    return f;
}
static void file_make(const char* name, const char* data, size_t n) { ShadowFile* f = shadow_create(name); for (size_t i = 0; i < n; i++) f->data.push_back(ShadowSym{(uint16_t)(unsigned char)data[i], 0}); }
static bool file_read(const char* name, std::vector<Sym>& out)
{
    ShadowFile* f = shadow_find(name);
    out.clear();
    if (!f) return false;
    sym_check(f->open == 0, "the file is closed in the end");
    for (auto& s : f->data) out.push_back(Sym{s.ch, s.num});
    return true;
}
static unsigned file_count() { unsigned n = 0; for (ShadowFile* f : shadow_files) n += !f->fail_write; return n; }
static void file_clean() {}
#else
#include <stdio.h>
#include <unistd.h>
#include <dirent.h>
static void file_clean() /* called first: the replay's scratch directory may hold files of earlier replays */
{
    DIR* d = opendir(".");
    while (struct dirent* e = d ? readdir(d) : nullptr) if (e->d_name[0] != '.' && e->d_type == DT_REG) unlink(e->d_name);
    if (d) closedir(d);
}
static void file_make(const char* name, const char* data, size_t n) { FILE* f = fopen(name, "wb"); fwrite(data, 1, n, f); fclose(f); }
static bool file_read(const char* name, std::vector<Sym>& out)
{
    FILE* f = fopen(name, "rb");
    int c, prev = 0;
    out.clear();
    if (!f) return false;
    while ((c = fgetc(f)) != EOF)
    {
        (void)prev;
        out.push_back(Sym{c, 0});
    }
    fclose(f);
    return true;
}
static unsigned file_count()
{
    unsigned n = 0;
    DIR* d = opendir(".");
    while (struct dirent* e = d ? readdir(d) : nullptr) n += e->d_name[0] != '.' && e->d_type == DT_REG;
    if (d) closedir(d);
    return n;
}
#endif
/* reads a decimal number at position i */
static bool take_number(const std::vector<Sym>& s, size_t& i, uint64_t& v, bool& neg)
{
    neg = false;
    if (i < s.size() && s[i].ch >= 256) { neg = s[i].ch == 257; v = s[i++].num; return true; }
    if (i < s.size() && s[i].ch == '-') { neg = true; i++; }
    size_t from = i;
    v = 0;
    while (i < s.size() && s[i].ch >= '0' && s[i].ch <= '9') v = v * 10 + (uint64_t)(s[i++].ch - '0');
    if (neg) v = (uint64_t)-v;
    return i > from && (i == from + 1 || s[from].ch != '0');
}
#endif
