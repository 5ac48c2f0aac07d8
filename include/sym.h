/* Interface between harnesses and the deciding machinery.
 * Under the symbolic executor these create symbolic values and pose solver queries; in a native
 * replay (sym_native.c) they read concrete values from a counterexample or witness file. */
#ifndef VERIF_SYM_H
#define VERIF_SYM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint8_t  sym_u8(const char* name);
uint16_t sym_u16(const char* name);
uint32_t sym_u32(const char* name);
uint64_t sym_u64(const char* name);
uint64_t sym_range(const char* name, uint64_t lo, uint64_t hi); /* inclusive */
uint32_t sym_choice(const char* name, uint32_t n);               /* 0..n-1, explored case by case */
void     sym_bytes(void* p, size_t n, const char* name);
void     sym_assume(int cond);
void     sym_check_(int cond, const char* msg);
uint64_t sym_concretize(uint64_t v);
void     sym_observe(const char* name, uint64_t v); /* must agree between engine and native run */
void     sym_reached(const char* name);
int      sym_is_engine(void);
uint64_t sym_heap_live(void);
void     sym_silent_exit(void);
void     harness(void);
#define sym_check(c, msg) sym_check_((c) ? 1 : 0, msg)
#ifdef __cplusplus
}
#endif
#endif
