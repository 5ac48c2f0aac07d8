/* stdio's reading functions over the in-memory file store (symbolic executor only; the real ones natively) */
#ifndef HARNESS_STDIO_MODEL_HPP
#define HARNESS_STDIO_MODEL_HPP
#include "files.hpp"
#include <stdio.h>
#include <string.h>
#ifndef NATIVE_REPLAY
struct ModelFILE { ShadowFile* f; size_t pos; bool eof; };
extern "C" {
FILE* hs_fopen(const char* n, const char* m)
{
    ShadowFile* f = shadow_find(n);
    sym_check(m[0] == 'r', "files are only read here");
    if (!f || f->fail_read) return nullptr;
    f->open++;
    return (FILE*)new ModelFILE{f, 0, false};
}
FILE* hs_fopen64(const char* n, const char* m) { return hs_fopen(n, m); }
int hs_fgetc(FILE* h) { ModelFILE* f = (ModelFILE*)h; if (f->pos >= f->f->data.size()) { f->eof = true; return EOF; } return f->f->data[f->pos++].ch; }
int hs_getc(FILE* h) { return hs_fgetc(h); }
size_t hs_fread(void* p, size_t sz, size_t n, FILE* h)
{
    size_t i = 0;
    for (; i < sz * n; i++) { int c = hs_fgetc(h); if (c == EOF) break; ((char*)p)[i] = (char)c; }
    return sz ? i / sz : 0;
}
char* hs_fgets(char* p, int n, FILE* h)
{
    int i = 0;
    while (i + 1 < n) { int c = hs_fgetc(h); if (c == EOF) break; p[i++] = (char)c; if (c == '\n') break; }
    if (!i) return nullptr;
    p[i] = 0;
    return p;
}
int hs_feof(FILE* h) { return ((ModelFILE*)h)->eof; }
int hs_ferror(FILE*) { return 0; }
int hs_fclose(FILE* h) { ModelFILE* f = (ModelFILE*)h; f->f->open--; delete f; return 0; }
}
#endif
#endif
