#include "ref.h"
#include <cstring>

bool ref_selftest();

namespace ref {

const uint8_t sbox_r3412[8][16] = {
	{12, 4, 6, 2, 10, 5, 11, 9, 14, 8, 13, 7, 0, 3, 15, 1},
	{6, 8, 2, 3, 9, 10, 5, 12, 1, 14, 4, 7, 11, 13, 0, 15},
	{11, 3, 5, 8, 2, 15, 10, 13, 14, 1, 7, 4, 12, 9, 6, 0},
	{12, 8, 2, 1, 13, 4, 15, 6, 7, 0, 10, 5, 3, 14, 9, 11},
	{7, 15, 5, 10, 8, 1, 6, 13, 0, 9, 3, 14, 11, 4, 2, 12},
	{5, 13, 15, 6, 9, 2, 12, 10, 11, 7, 8, 1, 4, 3, 14, 0},
	{8, 14, 2, 5, 6, 9, 1, 12, 15, 4, 11, 0, 13, 10, 3, 7},
	{1, 7, 14, 13, 0, 5, 8, 3, 4, 15, 10, 6, 9, 12, 11, 2}
};

uint32_t Magma::sub(uint32_t v) const
{
	uint32_t r = 0;
	for (int i = 7; i >= 0; i--) r = (r << 4) | (s[i][(v >> (4 * i)) & 15] & 15u);
	return r;
}
uint32_t Magma::f(uint32_t v) const
{
	const uint32_t t = sub(v);
	return (t << 11) | (t >> 21);
}
static uint64_t rounds(const Magma &m, uint64_t block, const int *order, int n, bool swap)
{
	uint32_t n1 = uint32_t(block), n2 = uint32_t(block >> 32);
	for (int i = 0; i < n; i++) {
		const uint32_t t = n2 ^ m.f(n1 + m.k[order[i]]);
		n2 = n1;
		n1 = t;
	}
	// after the last round the halves are not exchanged
	if (swap) return (uint64_t(n1) << 32) | n2;
	return (uint64_t(n2) << 32) | n1;
}
uint64_t Magma::enc(uint64_t b) const
{
	int o[32];
	for (int i = 0; i < 32; i++) o[i] = i < 24 ? i % 8 : 31 - i;
	return rounds(*this, b, o, 32, true);
}
uint64_t Magma::dec(uint64_t b) const
{
	int o[32];
	for (int i = 0; i < 32; i++) o[i] = i < 8 ? i : 7 - i % 8;
	return rounds(*this, b, o, 32, true);
}
uint64_t Magma::mac16(uint64_t b) const
{
	int o[16];
	for (int i = 0; i < 16; i++) o[i] = i % 8;
	return rounds(*this, b, o, 16, false);
}

static uint64_t load(const uint8_t *p, size_t n)
{
	uint64_t v = 0;
	for (size_t i = 0; i < n; i++) v |= uint64_t(p[i]) << (8 * i);
	return v;
}
static void cfb(const Magma &k, const uint64_t *iv, int m, const uint8_t *in, uint8_t *out, size_t n, bool enc)
{
	uint64_t reg[2] = {iv[0], m > 1 ? iv[1] : 0};
	for (size_t i = 0; i < n; i += 8) {
		const uint64_t g = k.enc(reg[0]);
		const size_t len = n - i < 8 ? n - i : 8;
		uint8_t c[8] = {0};
		for (size_t j = 0; j < len; j++) {
			const uint8_t x = in[i + j];
			const uint8_t y = uint8_t(x ^ uint8_t(g >> (8 * j)));
			c[j] = enc ? y : x;
			out[i + j] = y;
		}
		if (m > 1) reg[0] = reg[1];
		reg[m - 1] = load(c, 8);
	}
}
void cfb_enc(const Magma &k, const uint64_t *iv, int m, const uint8_t *in, uint8_t *out, size_t n)
{
	cfb(k, iv, m, in, out, n, true);
}
void cfb_dec(const Magma &k, const uint64_t *iv, int m, const uint8_t *in, uint8_t *out, size_t n)
{
	cfb(k, iv, m, in, out, n, false);
}
static void put(uint8_t *p, uint64_t v) { for (int i = 0; i < 8; i++) p[i] = uint8_t(v >> (8 * i)); }
void ecb_enc(const Magma &k, const uint8_t *in, uint8_t *out, size_t n)
{
	for (size_t i = 0; i + 8 <= n; i += 8) put(out + i, k.enc(load(in + i, 8)));
}
void ecb_dec(const Magma &k, const uint8_t *in, uint8_t *out, size_t n)
{
	for (size_t i = 0; i + 8 <= n; i += 8) put(out + i, k.dec(load(in + i, 8)));
}
static uint64_t dbl64(uint64_t v) { return (v << 1) ^ ((v >> 63) ? 0x1b : 0); }
uint64_t magma_mac(const Magma &k, const uint8_t *in, size_t n)
{
	const uint64_t k1 = dbl64(k.enc(0)), k2 = dbl64(k1);
	uint64_t st = 0;
	while (n > 8) {
		st = k.enc(st ^ load(in, 8));
		in += 8;
		n -= 8;
	}
	return k.enc(st ^ load(in, n) ^ (n == 8 ? k1 : k2));
}
uint64_t gost89_mac(const Magma &k, const uint8_t *in, size_t n)
{
	const size_t full = n < 16 ? 16 : (n + 7) / 8 * 8;
	uint64_t st = 0;
	for (size_t i = 0; i < full; i += 8) {
		const uint64_t b = i >= n ? 0 : load(in + i, n - i < 8 ? n - i : 8);
		st = k.mac16(st ^ b);
	}
	return st;
}

static const uint8_t pi_[256] = {
	252, 238, 221, 17, 207, 110, 49, 22, 251, 196, 250, 218, 35, 197, 4, 77, 233,
	119, 240, 219, 147, 46, 153, 186, 23, 54, 241, 187, 20, 205, 95, 193, 249, 24, 101,
	90, 226, 92, 239, 33, 129, 28, 60, 66, 139, 1, 142, 79, 5, 132, 2, 174, 227, 106,
	143, 160, 6, 11, 237, 152, 127, 212, 211, 31, 235, 52, 44, 81, 234, 200, 72, 171,
	242, 42, 104, 162, 253, 58, 206, 204, 181, 112, 14, 86, 8, 12, 118, 18, 191, 114,
	19, 71, 156, 183, 93, 135, 21, 161, 150, 41, 16, 123, 154, 199, 243, 145, 120, 111,
	157, 158, 178, 177, 50, 117, 25, 61, 255, 53, 138, 126, 109, 84, 198, 128, 195, 189,
	13, 87, 223, 245, 36, 169, 62, 168, 67, 201, 215, 121, 214, 246, 124, 34, 185, 3,
	224, 15, 236, 222, 122, 148, 176, 188, 220, 232, 40, 80, 78, 51, 10, 74, 167, 151,
	96, 115, 30, 0, 98, 68, 26, 184, 56, 130, 100, 159, 38, 65, 173, 69, 70, 146, 39,
	94, 85, 47, 140, 163, 165, 125, 105, 213, 149, 59, 7, 88, 179, 64, 134, 172, 29,
	247, 48, 55, 107, 228, 136, 217, 231, 137, 225, 27, 131, 73, 76, 63, 248, 254, 141,
	83, 170, 144, 202, 216, 133, 97, 32, 113, 103, 164, 45, 43, 9, 91, 203, 155, 37,
	208, 190, 229, 108, 82, 89, 166, 116, 210, 230, 244, 180, 192, 209, 102, 175, 194,
	57, 75, 99, 182
};
static uint8_t mul(unsigned a, unsigned b)
{
	unsigned r = 0;
	for (int i = 0; i < 8; i++) if (b >> i & 1) r ^= a << i;
	for (int i = 14; i >= 8; i--) if (r >> i & 1) r ^= 0x1c3u << (i - 8);
	return uint8_t(r);
}
static uint8_t mtab[16][256];
static bool mready;
static void prepare()
{
	static const uint8_t co[16] = {1, 148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148};
	for (int i = 0; i < 16; i++) for (int j = 0; j < 256; j++) mtab[i][j] = mul(unsigned(j), co[i]);
	mready = true;
}
struct PrepareAtStart { PrepareAtStart() { prepare(); } } prepare_at_start;

static void bytes(U128 v, uint8_t *b)
{
	put(b, v.lo);
	put(b + 8, v.hi);
}
static U128 from(const uint8_t *b) { return {load(b, 8), load(b + 8, 8)}; }
U128 kuz_R(U128 v)
{
	uint8_t b[17];
	bytes(v, b);
	uint8_t s = 0;
	for (int i = 0; i < 16; i++) s ^= mtab[i][b[i]];
	b[16] = s;
	return from(b + 1);
}
U128 kuz_L(U128 v)
{
	for (int i = 0; i < 16; i++) v = kuz_R(v);
	return v;
}
U128 kuz_S(U128 v)
{
	uint8_t b[16];
	bytes(v, b);
	for (auto &x : b) x = pi_[x];
	return from(b);
}
static U128 x(U128 a, U128 b) { return {a.lo ^ b.lo, a.hi ^ b.hi}; }
U128 kuz_iter_key(U128 ka, U128 kb, int c1, int c2)
{
	for (int i = c1; i <= c2; i++) {
		const U128 t = x(kuz_L(kuz_S(x(ka, kuz_L({uint64_t(i), 0})))), kb);
		kb = ka;
		ka = t;
	}
	return ka;
}
void Kuz::set(U128 high, U128 low)
{
	U128 a = high, b = low;
	rk[0] = a;
	rk[1] = b;
	for (int i = 1; i <= 32; i++) {
		const U128 t = x(kuz_L(kuz_S(x(a, kuz_L({uint64_t(i), 0})))), b);
		b = a;
		a = t;
		if (i % 8 == 0) {
			rk[i / 4] = a;
			rk[i / 4 + 1] = b;
		}
	}
}
U128 Kuz::enc(U128 b) const
{
	for (int i = 0; i < 9; i++) b = kuz_L(kuz_S(x(b, rk[i])));
	return x(b, rk[9]);
}
U128 inc128(U128 v)
{
	v.lo++;
	if (v.lo == 0) v.hi++;
	return v;
}
U128 shl128(U128 v, int n)
{
	const unsigned __int128 w = ((unsigned __int128)v.hi << 64 | v.lo) << n;
	return {uint64_t(w), uint64_t(w >> 64)};
}
static U128 dbl128(U128 v)
{
	U128 r = shl128(v, 1);
	if (v.hi >> 63) r.lo ^= 0x87;
	return r;
}
bool kuz_k1_msb(const Kuz &k) { return dbl128(k.enc({0, 0})).hi >> 63; }
U128 kuz_mac(const Kuz &k, const U128 *b, size_t n, size_t last_size)
{
	const U128 k1 = dbl128(k.enc({0, 0})), k2 = dbl128(k1);
	U128 st = {0, 0};
	for (size_t i = 0; i + 1 < n; i++) st = k.enc(x(st, b[i]));
	return k.enc(x(x(st, b[n - 1]), last_size == 16 ? k1 : k2));
}
U128 kuz_ctr(const Kuz &k, uint64_t iv, uint64_t index, U128 data)
{
	return x(data, k.enc({index, iv}));
}

}  // namespace ref

using namespace ref;

static bool eq(U128 a, U128 b) { return a.lo == b.lo && a.hi == b.hi; }

bool ref_selftest()
{
	// GOST R 34.12 / 34.13 and 28147-89 published examples
	Magma m;
	const uint32_t k[8] = {0xffeeddcc, 0xbbaa9988, 0x77665544, 0x33221100,
		0xf0f1f2f3, 0xf4f5f6f7, 0xf8f9fafb, 0xfcfdfeff};
	memcpy(m.k, k, sizeof k);
	memcpy(m.s, sbox_r3412, sizeof m.s);
	if (m.enc(0xfedcba9876543210) != 0x4ee901e5c2d8ca3d) return false;
	if (m.dec(0x4ee901e5c2d8ca3d) != 0xfedcba9876543210) return false;
	if (m.f(0) == 1) return false;
	const uint64_t p[4] = {0x92def06b3c130a59, 0xdb54c704f8189d20, 0x4a98fb2e67a8024c, 0x8912409b17b57e41};
	const uint64_t c[4] = {0xdb37e0e266903c83, 0x0d46644c1f9a089c, 0x24bdd2035315d38b, 0xbcc0321421075505};
	const uint64_t iv[2] = {0x1234567890abcdef, 0x234567890abcdef1};
	uint8_t out[32];
	cfb_enc(m, iv, 2, reinterpret_cast<const uint8_t *>(p), out, 32);
	if (memcmp(out, c, 32)) return false;
	cfb_dec(m, iv, 2, reinterpret_cast<const uint8_t *>(c), out, 32);
	if (memcmp(out, p, 32)) return false;
	if (magma_mac(m, reinterpret_cast<const uint8_t *>(p), 32) != 0x154e72102030c5bb) return false;
	const uint64_t e[4] = {0x2b073f0494f372a0, 0xde70e715d3556e48, 0x11d8d9e9eacfbc1e, 0x7c68260996c67efb};
	ecb_enc(m, reinterpret_cast<const uint8_t *>(p), out, 32);
	if (memcmp(out, e, 32)) return false;

	Magma o;
	const uint32_t ok[8] = {0xE0F67504, 0xFAFB3850, 0x90C3C7D2, 0x3DCAB3ED,
		0x42124715, 0x8A1EAE91, 0x9ECD792F, 0xBDEFBCD2};
	memcpy(o.k, ok, sizeof ok);
	const uint8_t uz[64] = {
		0xc4, 0xed, 0x83, 0xc9, 0x92, 0x98, 0xfe, 0x6b, 0xff, 0xbe, 0x65, 0x5c, 0xe5, 0x2c, 0xb9, 0x20,
		0x89, 0x57, 0x16, 0xb3, 0x11, 0xf3, 0x98, 0x06, 0x30, 0x79, 0xc0, 0x97, 0xa8, 0x1a, 0x5d, 0xd5,
		0x2e, 0x01, 0xda, 0x34, 0x73, 0xd5, 0x3b, 0xe8, 0x4b, 0xc2, 0x77, 0x7e, 0xdc, 0x64, 0xac, 0xaf,
		0x6d, 0xa6, 0x02, 0xf1, 0x07, 0x4f, 0xe1, 0x4a, 0xba, 0x30, 0x2f, 0x12, 0x56, 0x8b, 0x44, 0x8d
	};
	for (int i = 0; i < 8; i++) for (int j = 0; j < 16; j++)
		o.s[i][j] = i % 2 ? uz[j * 4 + i / 2] >> 4 : uz[j * 4 + i / 2] & 15;
	if (o.enc(0x0001020304050607) != 0xEA4AF215984C8C4B) return false;
	const uint64_t ov = 0x47E3A8FFC3A7802A;
	const uint64_t op[2] = {0x33333333CCCCCCCC, 0xCCCCCCCC33333333};
	const uint64_t oc[2] = {0x4B64BD1043224C3B, 0x0FAA6CD95548EB99};
	cfb_enc(o, &ov, 1, reinterpret_cast<const uint8_t *>(op), out, 16);
	if (memcmp(out, oc, 16)) return false;

	Kuz q;
	q.set({0x0011223344556677, 0x8899aabbccddeeff}, {0x0123456789abcdef, 0xfedcba9876543210});
	if (!eq(q.rk[2], {0x228d6aef8cc78c44, 0xdb31485315694343})) return false;
	if (!eq(q.enc({0xffeeddccbbaa9988, 0x1122334455667700}), {0x5a468d42b9d4edcd, 0x7f679d90bebc2430})) return false;
	const U128 d[4] = {
		{0xffeeddccbbaa9988, 0x1122334455667700}, {0x8899aabbcceeff0a, 0x0011223344556677},
		{0x99aabbcceeff0a00, 0x1122334455667788}, {0xaabbcceeff0a0011, 0x2233445566778899}
	};
	if (!eq(kuz_mac(q, d, 4, 16), {0x4ddeb35b37749c67, 0x336f4d296059fbe3})) return false;
	if (!eq(kuz_ctr(q, 0x1234567890abcef0, 0, d[0]), {0xd57b5fa240bda1b8, 0xf195d8bec10ed1db})) return false;
	if (!eq(kuz_ctr(q, 0x1234567890abcef0, 3, d[3]), {0xd1c6d15820bdba73, 0xcb91fab1f20cbab6})) return false;
	return true;
}
