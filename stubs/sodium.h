/* Stand-in for libsodium: the random source is owned by the simulator. */
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void randombytes_buf(void* const buf, const size_t size);
static inline int sodium_init(void) { return 0; }
#ifdef __cplusplus
}
#endif
