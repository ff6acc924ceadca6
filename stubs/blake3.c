#include "blake3.h"
#include <string.h>
#include <stdlib.h>
static const uint32_t IV[8] = {0x6A09E667,0xBB67AE85,0x3C6EF372,0xA54FF53A,0x510E527F,0x9B05688C,0x1F83D9AB,0x5BE0CD19};
static const uint8_t PERM[16] = {2,6,3,10,7,0,4,13,1,11,12,5,9,14,15,8};
static inline uint32_t rotr(uint32_t x, int n) { return (x >> n) | (x << (32 - n)); }
#define G(a,b,c,d,mx,my) do { \
  v[a] = v[a] + v[b] + (mx); v[d] = rotr(v[d] ^ v[a], 16); v[c] = v[c] + v[d]; v[b] = rotr(v[b] ^ v[c], 12); \
  v[a] = v[a] + v[b] + (my); v[d] = rotr(v[d] ^ v[a], 8);  v[c] = v[c] + v[d]; v[b] = rotr(v[b] ^ v[c], 7); } while(0)
static void compress(const uint32_t cv[8], const uint8_t block[64], uint32_t len, uint64_t ctr, uint32_t flags, uint32_t out[16])
{
	uint32_t m[16], t[16], v[16];
	memcpy(m, block, 64);
	for (int i = 0; i < 8; i++) v[i] = cv[i];
	for (int i = 0; i < 4; i++) v[8 + i] = IV[i];
	v[12] = (uint32_t)ctr; v[13] = (uint32_t)(ctr >> 32); v[14] = len; v[15] = flags;
	for (int r = 0; r < 7; r++) {
		G(0,4,8,12,m[0],m[1]); G(1,5,9,13,m[2],m[3]); G(2,6,10,14,m[4],m[5]); G(3,7,11,15,m[6],m[7]);
		G(0,5,10,15,m[8],m[9]); G(1,6,11,12,m[10],m[11]); G(2,7,8,13,m[12],m[13]); G(3,4,9,14,m[14],m[15]);
		for (int i = 0; i < 16; i++) t[i] = m[PERM[i]];
		memcpy(m, t, 64);
	}
	for (int i = 0; i < 8; i++) { out[i] = v[i] ^ v[i + 8]; out[i + 8] = v[i + 8] ^ cv[i]; }
}
void blake3_hasher_init(blake3_hasher *self) { self->len = 0; }
void blake3_hasher_update(blake3_hasher *self, const void *input, size_t n)
{
	if (self->len + n > sizeof(self->buf)) abort();
	memcpy(self->buf + self->len, input, n);
	self->len += n;
}
void blake3_hasher_finalize(const blake3_hasher *self, uint8_t *out, size_t out_len)
{
	enum { START = 1, END = 2, ROOT = 8 };
	uint32_t cv[8], full[16];
	memcpy(cv, IV, 32);
	size_t pos = 0;
	uint8_t block[64];
	uint32_t flags = START;
	while (self->len - pos > 64) {
		compress(cv, self->buf + pos, 64, 0, flags, full);
		memcpy(cv, full, 32);
		pos += 64; flags = 0;
	}
	size_t left = self->len - pos;
	memset(block, 0, 64);
	memcpy(block, self->buf + pos, left);
	uint64_t ctr = 0;
	while (out_len) {
		compress(cv, block, (uint32_t)left, ctr++, flags | END | ROOT, full);
		size_t n = out_len < 64 ? out_len : 64;
		memcpy(out, full, n);
		out += n; out_len -= n;
	}
}
