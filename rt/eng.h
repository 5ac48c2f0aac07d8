#ifndef VERIF_ENG_H
#define VERIF_ENG_H
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
uint32_t __eng_self(void);
uint32_t __eng_spawn(void (*fn)(void*), void* arg);
void __eng_yield(void);
void __eng_access(const void* p, uint64_t size, uint32_t write);
void __eng_block(const void* key);
void __eng_wake(const void* key, uint32_t all);
void __eng_fail(const char* msg);
#ifdef __cplusplus
}
#endif
#endif
