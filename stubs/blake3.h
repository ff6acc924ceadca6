/* Stand-in for lib/BLAKE3 (empty submodule here): the subset of the official C
 * API the plotter uses, implementing the real BLAKE3 hash for inputs of at most
 * one chunk (1024 bytes; the plotter hashes < 64 bytes). */
#ifndef VERIF_BLAKE3_H
#define VERIF_BLAKE3_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define BLAKE3_OUT_LEN 32
#define BLAKE3_KEY_LEN 32
#define BLAKE3_BLOCK_LEN 64
#define BLAKE3_CHUNK_LEN 1024
typedef struct { uint8_t buf[1024]; size_t len; } blake3_hasher;
void blake3_hasher_init(blake3_hasher *self);
void blake3_hasher_update(blake3_hasher *self, const void *input, size_t input_len);
void blake3_hasher_finalize(const blake3_hasher *self, uint8_t *out, size_t out_len);
#ifdef __cplusplus
}
#endif
#endif
