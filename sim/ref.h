// Independent reference implementations of the GOST algorithms, written from
// the standards, used as the oracle. Not instrumented, no heap, no library.
#pragma once
#include <cstddef>
#include <cstdint>

namespace ref {

struct Magma {
	uint32_t k[8];
	uint8_t s[8][16];          // s[i] substitutes nibble i (0 = least significant)
	uint64_t enc(uint64_t block) const;
	uint64_t dec(uint64_t block) const;
	uint64_t mac16(uint64_t block) const;   // 16 rounds of 28147-89
	uint32_t sub(uint32_t v) const;         // substitution only
	uint32_t f(uint32_t v) const;           // substitution and <<<11
};
extern const uint8_t sbox_r3412[8][16];

// CFB with a register of `m` blocks (1 for 28147-89, 2 for R 34.13).
void cfb_enc(const Magma &k, const uint64_t *iv, int m, const uint8_t *in, uint8_t *out, size_t n);
void cfb_dec(const Magma &k, const uint64_t *iv, int m, const uint8_t *in, uint8_t *out, size_t n);
// n must be a multiple of 8
void ecb_enc(const Magma &k, const uint8_t *in, uint8_t *out, size_t n);
void ecb_dec(const Magma &k, const uint8_t *in, uint8_t *out, size_t n);
// R 34.13 MAC for whole blocks; a short last block is zero-extended, second subkey.
uint64_t magma_mac(const Magma &k, const uint8_t *in, size_t n);
uint64_t gost89_mac(const Magma &k, const uint8_t *in, size_t n);

struct U128 { uint64_t lo, hi; };
struct Kuz {
	U128 rk[10];
	void set(U128 high, U128 low);          // K1 = high half of the key, K2 = low half
	U128 enc(U128 b) const;
};
U128 kuz_L(U128);
U128 kuz_S(U128);
U128 kuz_R(U128);
U128 kuz_iter_key(U128 ka, U128 kb, int c1, int c2);
U128 inc128(U128);
U128 shl128(U128, int);
// size = meaningful bytes of the last block (16 = full)
U128 kuz_mac(const Kuz &k, const U128 *blocks, size_t n, size_t last_size);
bool kuz_k1_msb(const Kuz &k);
U128 kuz_ctr(const Kuz &k, uint64_t iv, uint64_t index, U128 data);

}  // namespace ref
