/* Stand-in for the one stdio file the library writes: records every operation in order. */
#ifndef FILEMODEL_H
#define FILEMODEL_H
#include "common.h"
#include <stdio.h>
static Out fm_data;              /* everything written */
static size_t fm_flushed;        /* bytes known to be handed to the OS */
static int fm_open, fm_opened, fm_closed, fm_fail_open, fm_fail_flush, fm_fail_close;
static char fm_handle[512];
#define FM_FILE ((FILE*)fm_handle)
FILE* hs_fopen(const char* n, const char* m)
{
    sym_check(strcmp(n, "trace.htdump") == 0, "the file opened is the one asked for");
    sym_check(m[0] == 'w', "the file is opened for writing");
    if (fm_fail_open) return NULL;
    sym_check(!fm_open, "the file is opened once");
    fm_open = 1; fm_opened++;
    return FM_FILE;
}
FILE* hs_fopen64(const char* n, const char* m) { return hs_fopen(n, m); }
size_t hs_fwrite(const void* p, size_t sz, size_t n, FILE* f)
{
    sym_check(f == FM_FILE && fm_open, "data is written to the open file only");
    if (sz * n) out_mem(&fm_data, p, sz * n);
    return n;
}
size_t hs_fwrite_unlocked(const void* p, size_t sz, size_t n, FILE* f) { return hs_fwrite(p, sz, n, f); }
int hs_fputc(int c, FILE* f) { uint8_t b = (uint8_t)c; hs_fwrite(&b, 1, 1, f); return b; }
int hs_putc(int c, FILE* f) { return hs_fputc(c, f); }
int hs_ferror(FILE* f) { sym_check(f == FM_FILE && fm_open, "only the open file is used"); return 0; }
int hs_setvbuf(FILE* f, char* b, int m, size_t n) { sym_check(f == FM_FILE && fm_open, "only the open file is used"); (void)b; (void)m; (void)n; return 0; }
int hs_fflush(FILE* f)
{
    sym_check(f == FM_FILE && fm_open, "only the open file is flushed");
    if (fm_fail_flush) return -1;
    fm_flushed = fm_data.n;
    return 0;
}
int hs_fclose(FILE* f)
{
    sym_check(f == FM_FILE && fm_open, "only the open file is closed");
    fm_open = 0; fm_closed++; fm_flushed = fm_data.n;
    return fm_fail_close ? -1 : 0; /* the stream is gone either way */
}
static void fm_init(size_t cap) { out_init(&fm_data, cap); }
#endif
