#include "seams.h"
#include <algorithm>

namespace sim {

Cfg cfg;
int tag[8];
static int live_tags[1024];
static int last_tag;
int live_with(int t) { return live_tags[t]; }
int new_tag()
{
	rt::Quiet q;
	if (++last_tag == 1024) last_tag = 1;
	return last_tag;
}
Tracked::Tracked() : owner(tag[rt::self()])
{
	rt::Quiet q;
	live_tags[owner]++;
}
Tracked::Tracked(const Tracked &) : owner(tag[rt::self()])
{
	rt::Quiet q;
	live_tags[owner]++;
}
Tracked::~Tracked()
{
	{
		rt::Quiet q;
		live_tags[owner]--;
	}
	if (owner && cfg.destroyed && !rt::quiet()) {
		rt::Seam s;
		cfg.destroyed();
	}
}


void maybe_throw(rt::Fault kind, unsigned permille)
{
	uint32_t id;
	permille = std::min(1000u, permille * cfg.storm);
	if (cfg.reenter) cfg.reenter();
	{
		rt::Quiet q;
		if (!cfg.armed || permille == 0) return;
		id = rt::fault(kind, permille);
		if (id == 0) return;
		cfg.last_error[rt::self()] = id;
		rt::event(90, kind, id);
		rt::log("environment throws error #%u (kind %d)", id, int(kind));
	}
	switch (id % 5) {
	case 0: {
		SimErrRuntime e;
		e.id = id;
		throw e;
	}
	case 1: {
		SimErrPlain e;
		e.id = id;
		throw e;
	}
	case 2: {
		SimErrMemory e;
		e.id = id;
		throw e;
	}
	case 3: {
		SimErr e;
		e.id = id;
		throw e;
	}
	}
	SimErrSystem e;
	e.id = id;
	throw e;
}

const char *name(Result r)
{
	switch (r) {
	case OK: return "success";
	case SIM_ERROR: return "the environment's error";
	case BAD_ALLOC: return "bad_alloc";
	case REFUSED: return "an exception of the library";
	default: return "crash";
	}
}

// -------------------------------------------------------------- generators
// a power of two, or a value next to one: where buffers and counters end
size_t gen_boundary(uint64_t r, unsigned from, size_t max)
{
	unsigned powers = 0;
	while (from + powers < 40 && (size_t(1) << (from + powers)) <= max) powers++;
	if (!powers) return r % (max + 1);
	static const int delta[] = {0, 0, 0, -1, 1, -8, 8, 0};
	const size_t v = (size_t(1) << (from + (r >> 3) % powers)) + delta[r % 8];
	if (v >= 256) rt::probe(rt::P_boundary_size);
	return v;
}
size_t gen_size(size_t max)
{
	rt::Quiet q;
	uint64_t v = 0;
	const uint64_t b = rt::bits(rt::OPS);
	const uint64_t r = b >> 8;
	switch (b % 12) {
	case 0: case 1: v = r % 9; break;
	case 2: case 3: v = r % 40; break;
	case 4: case 5: v = 8 * (r % 12); break;
	case 6: v = 8 * (r % 24) + 1; break;
	case 7: v = 8 * (1 + r % 24) - 1; break;
	case 8: case 9: v = r % 200; break;
	case 10: v = (b >> 4) % 2 ? gen_boundary(r, 4, max) : r % 600; break;
	default: v = (b >> 4) % 4 ? r % 300 : r % (max + 1); break;
	}
	v = rt::propose(rt::OPS, v, max);
	if (v >= 1024) rt::probe(rt::P_multi_kb_stream);
	return v;
}
size_t gen_length(size_t usual)
{
	// now and then a long message, rarely one beyond 64 kB
	const uint64_t r = rt::choose(rt::OPS, 10000);
	if (r < 9900) return gen_size(usual);
	rt::Quiet q;
	const size_t max = r < 9998 ? 12000 : 140000;
	const uint64_t v = r == 9999 ? 524288 + rt::choose(rt::OPS, 4000) : rt::propose(rt::OPS, r % 2 ? rt::bits(rt::OPS) % (max + 1) : gen_boundary(rt::bits(rt::OPS), 8, max), max);
	if (v >= 1024) rt::probe(rt::P_multi_kb_stream);
	rt::allow_steps(4000 * v);
	if (v >= 65536) rt::probe(rt::P_over_64k_stream);
	if (v >= 524288) rt::probe(rt::P_over_64k_blocks);
	return v;
}
size_t gen_buffer()
{
	if (!rt::chance(rt::OPS, 40)) return 0;
	rt::Quiet q;
	const size_t n = gen_boundary(rt::choose(rt::OPS, 1 << 12), 4, 4096);
	if (n >= 256) rt::probe(rt::P_fixed_buffer);
	return n;
}
size_t gen_length(size_t usual, size_t buffer)
{
	if (!buffer) return gen_length(usual);
	rt::Quiet q;
	const uint64_t r = rt::choose(rt::OPS, 4);
	const size_t v = buffer * r + rt::choose(rt::OPS, rt::choose(rt::OPS, 2) ? 80 : 1);
	if (v >= 1024) rt::probe(rt::P_multi_kb_stream);
	rt::allow_steps(4000 * v);
	return v;
}
// A request far beyond the stream: everything, or a value next to a power of two
size_t gen_huge()
{
	const uint64_t r = rt::choose(rt::OPS, 8);
	if (r == 0) return SIZE_MAX;
	if (r == 1) return 1 << 20;
	const size_t p = size_t(1) << (16 + rt::choose(rt::OPS, 48));
	return p + rt::choose(rt::OPS, 65) - 32;
}
size_t gen_piece(size_t max)
{
	rt::Quiet q;
	const uint64_t b = rt::bits(rt::OPS);
	const uint64_t r = b >> 8;
	uint64_t v;
	switch (b % 10) {
	case 0: v = 0; break;
	case 1: case 2: v = 1 + r % 8; break;
	case 3: v = 8; break;
	case 4: v = 8 * (r % 8); break;
	case 5: v = r % 24; break;
	case 6: v = 8 * (r % 16) + 1 + (r >> 8) % 7; break;
	case 7: v = max; break;
	case 8: v = max >= 16 && r % 2 ? gen_boundary(r >> 1, 4, max) : r % (max + 1); break;
	default: v = r % (max + 1); break;
	}
	return rt::propose(rt::OPS, v, max);
}
static uint64_t mixer(uint64_t &x)
{
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
Bytes gen_bytes(size_t n)
{
	rt::Quiet q;
	Bytes b(n);
	const uint64_t kind = rt::choose(rt::DATA, 10);
	uint64_t x = kind < 2 ? 0 : rt::choose(rt::DATA, 1ull << 32);
	uint64_t w = 0;
	for (size_t i = 0; i < n; i++) {
		switch (kind) {
		case 0: break;
		case 1: b[i] = byte(0xff); break;
		case 2: b[i] = byte(i + x); break;
		case 3: b[i] = byte((x >> (8 * (i % 4))) & 0xff); break;      // period 4
		case 4: if (i % 8 == 0 && i % 16 == 0) w = mixer(x);          // equal neighbour blocks
			b[i] = byte(w >> (8 * (i % 8))); break;
		case 5: if (i % 8 == 0) w = mixer(x);
			b[i] = (w >> 61) ? byte(w >> (8 * (i % 8))) : byte(0); break;   // some zero blocks
		default: if (i % 8 == 0) w = mixer(x);
			b[i] = byte(w >> (8 * (i % 8))); break;
		}
	}
	return b;
}
uint64_t gen_word()
{
	rt::Quiet q;
	const uint64_t b = rt::bits(rt::DATA);
	uint64_t v = rt::bits(rt::DATA);
	switch (b % 12) {
	case 0: v = 0; break;
	case 1: v = ~0ull; break;
	case 2: v = 1ull << (v & 63); break;
	case 3: v = (1ull << (v & 63)) - 1; break;
	case 4: v &= 0xffffffff; break;
	case 5: v <<= 32; break;
	case 6: v = ~0ull - (v & 7); break;
	default: break;
	}
	return rt::propose(rt::DATA, v, ~0ull);
}
uint64_t fnv(const void *p, size_t n)
{
	rt::Quiet q;
	uint64_t h = 0xcbf29ce484222325ull;
	const uint8_t *b = static_cast<const uint8_t *>(p);
	for (size_t i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ull;
	return h;
}
std::string hex(const void *p, size_t n)
{
	rt::Quiet q;
	std::string s;
	const uint8_t *b = static_cast<const uint8_t *>(p);
	for (size_t i = 0; i < n && i < 64; i++) {
		s += "0123456789abcdef"[b[i] >> 4];
		s += "0123456789abcdef"[b[i] & 15];
	}
	if (n > 64) s += "..";
	return s;
}
std::string hex(const Bytes &b) { return hex(b.data(), b.size()); }

static void differ(const Bytes &got, const Bytes &want, const char *cls, const char *what, bool prefix)
{
	size_t i = 0;
	while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	const size_t from = i < 8 ? 0 : (i / 8 - 1) * 8;
	rt::violation(cls, "%s: %zu bytes instead of %s%zu, first difference at byte %zu; from byte %zu: got %s expected %s",
		what, got.size(), prefix ? "a prefix of " : "", want.size(), i, from,
		hex(slice(got, from, 32)).c_str(), hex(slice(want, from, 32)).c_str());
}
void expect(const Bytes &got, const Bytes &want, const char *cls, const char *what)
{
	rt::Quiet q;
	if (got.size() != want.size() || (!got.empty() && memcmp(got.data(), want.data(), got.size()))) differ(got, want, cls, what, false);
}
void expect_prefix(const Bytes &got, const Bytes &of, const char *cls, const char *what)
{
	rt::Quiet q;
	if (got.size() > of.size() || (!got.empty() && memcmp(got.data(), of.data(), got.size())))
		differ(got, of, cls, what, true);
}
Bytes slice(const Bytes &b, size_t from, size_t n)
{
	rt::Quiet q;
	if (from > b.size()) from = b.size();
	if (n > b.size() - from) n = b.size() - from;
	return Bytes(b.begin() + from, b.begin() + from + n);
}
void append(Bytes &to, const Bytes &b)
{
	rt::Quiet q;
	to.insert(to.end(), b.begin(), b.end());
}

// -------------------------------------------------------------------- keys
static const char digits[2][17] = {"0123456789abcdef", "0123456789ABCDEF"};
std::string key_text(const uint32_t k[8], int style)
{
	rt::Quiet q;
	std::string s;
	for (int i = 0; i < 8; i++) {
		for (int j = 7; j >= 0; j--) {
			const int d = style == 2 ? (i + j) & 1 : style;
			s += digits[d][(k[i] >> (4 * j)) & 15];
		}
	}
	return s;
}
static MagmaParams fresh_magma()
{
	rt::Quiet q;
	MagmaParams p;
	p.kind = int(rt::choose(rt::OPS, K_NKINDS));
	if (p.kind == K_TEXT && !cfg.plain_texts) p.kind = K_STRING_SBOX;
	if (p.kind == K_TEXT) rt::probe(rt::P_uncached_text);
	p.own = rt::chance(rt::OPS, 120);
	p.sbox = p.kind == K_STRING ? 0 : int(rt::choose(rt::OPS, 5));
	const bool dull = rt::chance(rt::DATA, 15);     // one word eight times
	const uint64_t first = gen_word();
	if (dull) rt::probe(rt::P_dull_key);
	for (int i = 0; i < 4; i++) {
		const uint64_t w = dull ? uint64_t(uint32_t(first)) << 32 | uint32_t(first) : i ? gen_word() : first;
		p.ref.k[2 * i] = uint32_t(w);
		p.ref.k[2 * i + 1] = uint32_t(w >> 32);
	}
	if (p.kind == K_WRAPPED) {
		memcpy(p.kek.s, ref::sbox_r3412, sizeof p.kek.s);
		for (int i = 0; i < 8; i++) p.kek.k[i] = p.ref.k[i] ^ uint32_t(0x9e3779b9u * unsigned(i + 1));
		for (int i = 0; i < 4; i++) {
			p.wrapped[i] = p.ref.k[2 * i] | uint64_t(p.ref.k[2 * i + 1]) << 32;
			const uint64_t w = p.kek.enc(p.wrapped[i]);
			p.ref.k[2 * i] = uint32_t(w);
			p.ref.k[2 * i + 1] = uint32_t(w >> 32);
		}
	}
	memcpy(p.ref.s, ref::sbox_r3412, sizeof p.ref.s);
	if (p.sbox != 0) {
		uint64_t x = rt::choose(rt::DATA, 1ull << 32);
		for (auto &row : p.ref.s) {
			for (int i = 15; i > 0; i--) {
				const int j = int(mixer(x) % unsigned(i + 1));
				std::swap(row[i], row[j]);
			}
		}
		// rows that are equal, that change nothing or that are no permutations
		const uint64_t dull = rt::choose(rt::DATA, 40);
		if (dull >= 35) rt::probe(rt::P_dull_table);
		switch (dull) {
		case 35: memmove(p.ref.s[mixer(x) % 8], p.ref.s[mixer(x) % 8], 16); break;
		case 36: for (int i = 1; i < 8; i++) memcpy(p.ref.s[i], p.ref.s[0], 16); break;
		case 37: for (auto &row : p.ref.s) for (int i = 0; i < 16; i++) row[i] = uint8_t(i); break;
		case 38: for (auto &row : p.ref.s) for (auto &v : row) v = uint8_t(mixer(x) % 16); break;
		case 39: memset(p.ref.s[mixer(x) % 8], int(mixer(x) % 16), 16); break;
		}
	}
	pack(p);
	return p;
}
void pack(MagmaParams &p)
{
	for (int i = 0; i < 16; i++) {
		for (int o = 0; o < 4; o++) {
			p.packed[i * 4 + o] = uint8_t(p.ref.s[2 * o][i] | (p.ref.s[2 * o + 1][i] << 4));
		}
	}
}
MagmaParams similar(const MagmaParams &from)
{
	rt::Quiet q;
	rt::probe(rt::P_similar_key);
	MagmaParams p = from;
	const MagmaParams fresh = fresh_magma();
	switch (rt::choose(rt::OPS, 5)) {
	case 0:            // the very same parameters, other objects
		return p;
	case 4: {          // the same key, two entries of the table exchanged
		if (p.sbox == 0) p.sbox = 1;
		if (rt::choose(rt::OPS, 4) == 3) {
			// the same rows in another order
			for (int i = 0; i < 16; i++) std::swap(p.ref.s[0][i], p.ref.s[7][i]);
		} else {
			auto &row = p.ref.s[rt::choose(rt::OPS, 8)];
			const size_t i = size_t(rt::choose(rt::OPS, 15));
			std::swap(row[i], row[15]);
		}
		pack(p);
		break;
	}
	case 1: {          // one bit of the key
		const uint64_t bit = rt::choose(rt::OPS, 256);
		auto &a = p.ref.k[bit / 32], &b = p.ref.k[(bit / 32 + 1) % 8];
		switch (rt::choose(rt::OPS, 5)) {
		case 4: a ^= 1u << (bit % 32); b ^= 1u << (bit % 32); break;   // two, what an xor takes for the same
		case 3: a += 1u << (bit % 32); b -= 1u << (bit % 32); break;   // or a sum
		case 2: std::swap(a, b); break;                                // or either
		default: a ^= 1u << (bit % 32);
		}
		break;
	}
	case 2:            // the same key with another table
		memcpy(p.ref.s, fresh.ref.s, sizeof p.ref.s);
		memcpy(p.packed, fresh.packed, sizeof p.packed);
		p.sbox = fresh.sbox;
		break;
	default:           // the same table with another key
		memcpy(p.ref.k, fresh.ref.k, sizeof p.ref.k);
	}
	p.kind = fresh.kind == K_WRAPPED ? int(K_NATIVE) : fresh.kind;
	if (p.kind == K_STRING && p.sbox != 0) p.kind = K_STRING_SBOX;
	p.own = fresh.own;
	return p;
}
// Keys of one process are often alike: what a cache takes for the same must be.
MagmaParams gen_magma()
{
	rt::Quiet q;
	static MagmaParams last;
	static bool set;
	const MagmaParams p = set && rt::chance(rt::OPS, 300) ? similar(last) : fresh_magma();
	last = p;
	set = true;
	return p;
}
vector<uint8_t> packed_sbox(const MagmaParams &p) { return vector<uint8_t>(p.packed, p.packed + 64); }
vector<vector<int>> nibble_rows(const MagmaParams &p)
{
	vector<vector<int>> r(8);
	for (int i = 0; i < 8; i++) r[size_t(i)].assign(p.ref.s[i], p.ref.s[i] + 16);
	return r;
}
shared_ptr<const magma::Sbox> make_sbox(const MagmaParams &p)
{
	switch (p.sbox) {
	case 0:
		return made<magma::SboxR3412>();
	case 1: {
		const auto r = nibble_rows(p);
		return made<magma::SboxTwisted>(made_unique<const magma::SboxNibble>(
			r[0], r[1], r[2], r[3], r[4], r[5], r[6], r[7]));
	}
	case 2:
		return made<magma::SboxTwisted>(made_unique<const magma::SboxByte>(packed_sbox(p)));
	case 3:
		return made<magma::SboxTwisted>(made_unique<const magma::SboxByte>(
			make_unique<SimTab>(p.ref, 0), make_unique<SimTab>(p.ref, 1),
			make_unique<SimTab>(p.ref, 2), make_unique<SimTab>(p.ref, 3)));
	default:
		return make_shared<SimSbox>(p.ref);
	}
}
MagmaKey build(const MagmaParams &p)
{
	MagmaKey k;
	k.ref = p.ref;
	k.kind = p.kind;
	switch (p.kind) {
	case K_STRING:
		k.key = made<magma::LazyKey>(key_text(p.ref.k, 0));
		break;
	case K_STRING_SBOX:
		k.key = made<magma::LazyKey>(key_text(p.ref.k, 2), make_sbox(p));
		break;
	case K_NATIVE:
		k.key = made<magma::LazyKey>(vector<uint32_t>(p.ref.k, p.ref.k + 8), make_sbox(p));
		break;
	case K_TEXT: {
		auto data = made_unique<const magma::KeyDataString>(key_text(p.ref.k, 1));
		k.key = made<magma::LazyKey>(std::move(data), make_sbox(p));
		break;
	}
	case K_CACHED_WORDS: {
		auto data = made_unique<const magma::KeyDataNative>(vector<uint32_t>(p.ref.k, p.ref.k + 8));
		k.key = made<magma::LazyKey>(made_unique<const magma::KeyCachedData>(std::move(data)), make_sbox(p));
		break;
	}
	case K_PROVIDER:
		k.key = made<magma::LazyKey>(make_unique<SimKeyData>(p.ref.k), make_sbox(p));
		break;
	case K_CACHED_PROVIDER:
		k.key = made<magma::LazyKey>(
			made_unique<const magma::KeyCachedData>(make_unique<SimKeyData>(p.ref.k)),
			make_sbox(p));
		break;
	default:
		k.key = made<magma::LazyKey>(
			made_unique<const magma::KeyCachedData>(make_unique<SimWrappedKeyData>(
				p.wrapped, made<magma::LazyKey>(key_text(p.kek.k, 0)))),
			make_sbox(p));
	}
	if (p.own) rt::probe(rt::P_user_key);
	if (p.own) k.any = make_shared<SimKey>(p.ref); else k.any = k.key;
	return k;
}
MagmaKey gen_magma_key() { return build(gen_magma()); }

SimKeyData::SimKeyData(const uint32_t kk[8]) { for (int i = 0; i < 8; i++) k[i] = kk[i]; }
uint32_t SimKeyData::key(int index) const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_key_error, cfg.key_error);
	if (index < 0 || index > 7) rt::violation("bad-key-index", "key word %d requested", index);
	rt::Quiet q;
	return k[size_t(index)];
}
SimWrappedKeyData::SimWrappedKeyData(const uint64_t v[4], const shared_ptr<const magma::LazyKey> &kek) : kek(kek)
{
	for (int i = 0; i < 4; i++) w[i] = v[i];
}
uint32_t SimWrappedKeyData::key(int index) const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_key_error, cfg.key_error);
	if (index < 0 || index > 7) rt::violation("bad-key-index", "key word %d requested", index);
	rt::Lib l;
	const auto v = magma::BlkEncrypted(made<magma::BlkRaw>(w[size_t(index / 2)]), kek).value();
	return index % 2 ? v.second : v.first;
}
SimSbox::SimSbox(const ref::Magma &m) : m(m) {}
uint32_t SimSbox::transform(uint32_t v) const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_sbox_error, cfg.sbox_error);
	return m.f(v);
}
SimTab::SimTab(const ref::Magma &m, int o)
{
	rt::Quiet q;
	for (int i = 0; i < 256; i++) t[i] = uint8_t(m.s[2 * o][i & 15] | (m.s[2 * o + 1][i >> 4] << 4));
}
uint32_t SimTab::translate(int index) const
{
	rt::Seam s;
	maybe_throw(rt::F_sbox_error, cfg.sbox_error);
	rt::Quiet q;
	return t[index & 0xff];
}
SimKey::SimKey(const ref::Magma &m) : m(m) {}
uint32_t SimKey::transform(uint32_t v, int index) const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_key_error, cfg.key_error);
	if (index < 0 || index > 7) rt::violation("bad-key-index", "key word %d requested", index);
	return m.f(v + m.k[index]);
}
Bytes SimContainer::key() const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_key_error, 20 * cfg.key_error);
	rt::Quiet q;
	return k;
}
Bytes SimContainer::mask() const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_key_error, 20 * cfg.key_error);
	rt::Quiet q;
	return m;
}
Bytes SimContainer::sbox() const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_key_error, 20 * cfg.key_error);
	rt::Quiet q;
	return this->s;
}
shared_ptr<SimContainer> make_container(const MagmaParams &p)
{
	auto c = make_shared<SimContainer>();
	rt::Quiet q;
	for (int i = 0; i < 8; i++)
		for (int j = 3; j >= 0; j--) c->k.push_back(byte(p.ref.k[i] >> (8 * j)));
	c->m.assign(32, byte(0));
	for (int i = 0; i < 64; i++) c->s.push_back(byte(p.packed[i]));
	return c;
}

static KuzParams fresh_kuz()
{
	rt::Quiet q;
	KuzParams p;
	p.kind = int(rt::choose(rt::OPS, 4));
	p.hi.hi = gen_word();
	p.hi.lo = gen_word();
	p.lo.hi = gen_word();
	p.lo.lo = gen_word();
	if (rt::chance(rt::DATA, 15)) {
		rt::probe(rt::P_dull_key);
		p.lo = p.hi;
		if (rt::choose(rt::DATA, 2)) p.hi.hi = p.hi.lo = p.lo.hi = p.lo.lo = rt::choose(rt::DATA, 2) ? ~0ull : 0;
	}
	if (p.kind == 3) {
		p.wrapped[0] = p.hi;
		p.wrapped[1] = p.lo;
		p.kek[0] = {p.lo.hi + 1, p.hi.lo ^ 0x55};
		p.kek[1] = {p.hi.hi, p.lo.lo + 7};
		ref::Kuz kek;
		kek.set(p.kek[0], p.kek[1]);
		p.hi = kek.enc(p.hi);
		p.lo = kek.enc(p.lo);
	}
	p.ref.set(p.hi, p.lo);
	return p;
}
KuzParams similar(const KuzParams &from)
{
	rt::Quiet q;
	rt::probe(rt::P_similar_key);
	KuzParams p = from;
	const KuzParams fresh = fresh_kuz();
	switch (rt::choose(rt::OPS, 4)) {
	case 0: return p;
	case 1: {
		const uint64_t bit = rt::choose(rt::OPS, 256);
		uint64_t *const w[4] = {&p.hi.hi, &p.hi.lo, &p.lo.hi, &p.lo.lo};
		uint64_t &a = *w[bit / 64], &b = *w[(bit / 64 + 1) % 4];
		switch (rt::choose(rt::OPS, 6)) {
		case 5: std::swap(p.hi, p.lo); break;
		case 4: a ^= 1ull << (bit % 64); b ^= 1ull << (bit % 64); break;
		case 3: a += 1ull << (bit % 64); b -= 1ull << (bit % 64); break;
		case 2: std::swap(a, b); break;
		default: a ^= 1ull << (bit % 64);
		}
		break;
	}
	case 2: p.lo = fresh.lo; break;
	default: p.hi = fresh.hi;
	}
	p.kind = fresh.kind == 3 ? 2 : fresh.kind;
	p.ref.set(p.hi, p.lo);
	return p;
}
KuzParams gen_kuz()
{
	rt::Quiet q;
	static KuzParams last;
	static bool set;
	const KuzParams p = set && rt::chance(rt::OPS, 300) ? similar(last) : fresh_kuz();
	last = p;
	set = true;
	return p;
}
std::string kuz_text(const KuzParams &p, int style)
{
	rt::Quiet q;
	std::string s;
	const uint64_t w[4] = {p.hi.hi, p.hi.lo, p.lo.hi, p.lo.lo};
	for (int i = 0; i < 4; i++)
		for (int j = 15; j >= 0; j--) s += digits[style == 2 ? (i + j) & 1 : style][(w[i] >> (4 * j)) & 15];
	return s;
}
shared_ptr<const kuz::Key> build(const KuzParams &p)
{
	switch (p.kind) {
	case 0: return made<kuz::Key>(kuz_text(p, 0));
	case 1: {
		const auto data = made<kuz::KeyDataString>(kuz_text(p, 2));
		return made<kuz::Key>(data);   // the text is gone by now
	}
	case 2: return made<kuz::Key>(make_shared<SimKuzData>(p.hi, p.lo));
	default: return made<kuz::Key>(make_shared<SimWrappedKuzData>(
		p.wrapped, made<kuz::Key>(make_shared<SimKuzData>(p.kek[0], p.kek[1]))));
	}
}
shared_ptr<const kuz::Block> SimKuzData::low() const
{
	rt::Seam s;
	maybe_throw(rt::F_key_error, 8 * cfg.key_error);
	return make_shared<SimKuzBlock>(lo);
}
shared_ptr<const kuz::Block> SimKuzData::high() const
{
	rt::Seam s;
	maybe_throw(rt::F_key_error, 8 * cfg.key_error);
	return make_shared<SimKuzBlock>(hi);
}
shared_ptr<const kuz::Block> SimWrappedKuzData::low() const
{
	rt::Seam s;
	maybe_throw(rt::F_key_error, 8 * cfg.key_error);
	return made<kuz::BlkEncrypted>(make_shared<SimKuzBlock>(w[1]), kek);
}
shared_ptr<const kuz::Block> SimWrappedKuzData::high() const
{
	rt::Seam s;
	maybe_throw(rt::F_key_error, 8 * cfg.key_error);
	return made<kuz::BlkEncrypted>(make_shared<SimKuzBlock>(w[0]), kek);
}
pair<uint64_t, uint64_t> SimKuzBlock::value() const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_block_error, cfg.block_error);
	return {v.lo, v.hi};
}
pair<uint32_t, uint32_t> SimMagmaBlock::value() const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_block_error, cfg.block_error);
	return {uint32_t(v), uint32_t(v >> 32)};
}

// ----------------------------------------------------------------- streams
// A stream whose state is not in the handle may return the handle itself.
template <class Base, class T, class... A>
static shared_ptr<const Base> successor(const T *self, const A &...a)
{
	if (cfg.self_handles) {
		const auto me = self->weak_from_this().lock();
		if (me) {
			rt::probe(rt::P_self_handle);
			return me;
		}
	}
	return make_shared<T>(a...);
}

shared_ptr<const Sink> MemSink::write(const Bytes &data) const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_write_error, cfg.write_error);
	Bytes next = content;
	{
		rt::Quiet q;
		rt::event(1, data.size(), fnv(data), content.size());
		if (rt::verbose()) rt::log("sink[%zu].write(%zu bytes: %s)", content.size(), data.size(), hex(data).c_str());
		next.insert(next.end(), data.begin(), data.end());
	}
	if (data.empty()) return successor<Sink>(this, content);
	return make_shared<MemSink>(next);
}
shared_ptr<const Sink> MemSink::finalize() const
{
	rt::Seam s;
	rt::violation("sink-finalized", "the library finalized the caller's own sink");
}
const Bytes &content_of(const shared_ptr<const Sink> &s)
{
	const MemSink *m = dynamic_cast<const MemSink *>(s.get());
	if (!m) rt::violation("not-underlying-sink", "finalize() did not return the underlying sink");
	return m->content;
}

shared_ptr<const Sink> DevSink::write(const Bytes &data) const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_write_error, cfg.write_error);
	{
		rt::Quiet q;
		if (d->dead) rt::violation("write-after-crash", "a write after the crash");
		d->writes++;
		rt::event(2, data.size(), fnv(data), d->durable.size());
		if (rt::verbose()) rt::log("device[%zu].write(%zu bytes: %s)", d->durable.size(), data.size(), hex(data).c_str());
		if (d->crash_at && --d->crash_at == 0) {
			d->dead = true;
			rt::fired(rt::F_crash);
			if (d->torn) {
				rt::fired(rt::F_torn_write);
				const size_t n = d->torn_bytes % (data.size() + 1);
				d->durable.insert(d->durable.end(), data.begin(), data.begin() + n);
			}
			rt::log("crash, %zu bytes durable", d->durable.size());
		} else {
			d->durable.insert(d->durable.end(), data.begin(), data.end());
		}
	}
	if (d->dead) throw SimCrash{0};
	return successor<Sink>(this, d);
}
shared_ptr<const Sink> DevSink::finalize() const
{
	rt::Seam s;
	rt::violation("sink-finalized", "the library finalized the caller's own sink");
}

static size_t short_of(size_t want, size_t avail)
{
	size_t n = want < avail ? want : avail;
	if (n > 1 && cfg.armed && cfg.short_read && rt::chance(rt::FAULT, cfg.short_read)) {
		rt::fired(rt::F_short_read);
		n = 1 + rt::choose(rt::FAULT, n - 1);
	}
	return n;
}
pair<Bytes, shared_ptr<const Source>> MemSource::read(size_t size) const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_read_error, cfg.read_error);
	Bytes out;
	size_t n;
	{
		rt::Quiet q;
		n = short_of(size, data->size() - off);
		out.assign(data->begin() + off, data->begin() + off + n);
		rt::event(3, size, n, off);
		rt::log("source[%zu].read(%zu) -> %zu bytes", off, size, n);
	}
	if (n == 0) return {out, successor<Source>(this, data, off)};
	return {out, make_shared<MemSource>(data, off + n)};
}
shared_ptr<const Source> mem_source(const Bytes &b)
{
	return make_shared<MemSource>(make_shared<const Bytes>(b), 0);
}
pair<Bytes, shared_ptr<const Source>> FileSource::read(size_t size) const
{
	rt::Seam s;
	rt::seam_point();
	maybe_throw(rt::F_read_error, cfg.read_error);
	Bytes out;
	{
		rt::Quiet q;
		f->reads++;
		const size_t n = short_of(size, f->data.size() - f->pos);
		out.assign(f->data.begin() + f->pos, f->data.begin() + f->pos + n);
		rt::event(4, size, n, f->pos);
		rt::log("file[%zu].read(%zu) -> %zu bytes", f->pos, size, n);
		f->pos += n;
	}
	return {out, successor<Source>(this, f)};
}

shared_ptr<const Sink> ChannelSink::write(const Bytes &data) const
{
	rt::Seam s;
	{
		rt::Quiet q;
		if (c->closed) rt::violation("write-after-close", "a write after the channel was closed");
		append(c->wire, data);
		for (size_t i = 0; i < data.size(); ) {
			if (c->queue.size() >= c->capacity) {
				rt::probe(rt::P_channel_full);
				rt::wait_on(c);
				continue;
			}
			const size_t n = std::min(data.size() - i, c->capacity - c->queue.size());
			c->queue.insert(c->queue.end(), data.begin() + i, data.begin() + i + n);
			i += n;
			c->sent += n;
			rt::event(5, n, c->queue.size());
			rt::log("channel <- %zu bytes (%zu queued)", n, c->queue.size());
			rt::notify(c);
		}
		const uint64_t lat = rt::chance(rt::FAULT, 60) ? 1 + rt::choose(rt::FAULT, 50) : 0;
		if (lat) {
			rt::fired(rt::F_latency);
			rt::sleep(lat);
		}
	}
	rt::seam_point();
	return successor<Sink>(this, c);
}
shared_ptr<const Sink> ChannelSink::finalize() const
{
	rt::Seam s;
	rt::violation("sink-finalized", "the library finalized the caller's own sink");
}
void close(Channel &c)
{
	rt::Quiet q;
	c.closed = true;
	rt::notify(&c);
}
pair<Bytes, shared_ptr<const Source>> ChannelSource::read(size_t size) const
{
	rt::Seam s;
	rt::seam_point();
	Bytes out;
	{
		rt::Quiet q;
		if (rt::chance(rt::FAULT, 40)) {
			rt::fired(rt::F_stall);
			rt::sleep(1 + rt::choose(rt::FAULT, 200));
		}
		while (size && c->queue.empty() && !c->closed) {
			rt::probe(rt::P_channel_empty);
			rt::wait_on(c);
		}
		const size_t n = short_of(size, c->queue.size());
		out.assign(c->queue.begin(), c->queue.begin() + n);
		c->queue.erase(c->queue.begin(), c->queue.begin() + n);
		c->received += n;
		rt::event(6, size, n);
		rt::log("channel -> read(%zu): %zu bytes", size, n);
		rt::notify(c);
	}
	return {out, successor<Source>(this, c)};
}

namespace {
class SimIterator final : public kuz::Iterator, private Tracked {
public:
	SimIterator(const shared_ptr<const vector<ref::U128>> &b, size_t last_size, size_t i)
		: b(b), last_size(last_size), i(i) {}
	pair<uint64_t, uint64_t> value() const override
	{
		rt::Seam s;
		rt::seam_point();
		maybe_throw(rt::F_stream_error, cfg.stream_error);
		return {(*b)[i].lo, (*b)[i].hi};
	}
	bool last() const override
	{
		rt::Seam s;
		maybe_throw(rt::F_stream_error, cfg.stream_error);
		return i + 1 == b->size();
	}
	size_t size() const override
	{
		rt::Seam s;
		maybe_throw(rt::F_stream_error, cfg.stream_error);
		return i + 1 == b->size() ? last_size : 16;
	}
	shared_ptr<const Iterator> next() const override
	{
		rt::Seam s;
		rt::seam_point();
		maybe_throw(rt::F_stream_error, cfg.stream_error);
		if (i + 1 >= b->size()) return {};
		return make_shared<SimIterator>(b, last_size, i + 1);
	}
private:
	const shared_ptr<const vector<ref::U128>> b;
	const size_t last_size;
	const size_t i;
};
}  // namespace
SimStream::SimStream(const vector<ref::U128> &b, size_t last_size)
	: last_size(last_size)
{
	// bytes beyond the end of the message are zero
	auto copy = b;
	copy.back() = mask(copy.back(), last_size);
	this->b = make_shared<const vector<ref::U128>>(copy);
}
shared_ptr<const kuz::Iterator> SimStream::iter() const
{
	rt::Seam s;
	maybe_throw(rt::F_stream_error, cfg.stream_error);
	return make_shared<SimIterator>(b, last_size, 0);
}

// --------------------------------------------------------------------- CFB
shared_ptr<const Sink> Cfb::sink(const shared_ptr<const Sink> &s, const shared_ptr<const magma::Key> &k) const
{
	if (m == 1) return made<gost89::CFBSink>(s, k, iv[0]);
	return made<magma::CFBSink>(s, k, iv[0], iv[1]);
}
shared_ptr<const Sink> Cfb::sink(const shared_ptr<const Sink> &s, const shared_ptr<const magma::Key> &k,
	const Bytes &pending) const
{
	if (m == 1) return made<gost89::CFBSink>(s, k, iv[0], Bytes(pending));
	return made<magma::CFBSink>(s, k, iv[0], iv[1], Bytes(pending));
}
shared_ptr<const Source> Cfb::source(const shared_ptr<const Source> &s, const shared_ptr<const magma::Key> &k) const
{
	if (m == 1) return made<gost89::CFBSource>(s, k, iv[0]);
	return made<magma::CFBSource>(s, k, iv[0], iv[1]);
}
shared_ptr<const Source> Cfb::source(const shared_ptr<const Source> &s, const shared_ptr<const magma::Key> &k,
	const Bytes &pending) const
{
	if (m == 1) return made<gost89::CFBSource>(s, k, iv[0], Bytes(pending));
	return made<magma::CFBSource>(s, k, iv[0], iv[1], Bytes(pending));
}
Bytes Cfb::enc(const ref::Magma &k, const Bytes &b) const
{
	rt::Quiet q;
	Bytes r(b.size());
	ref::cfb_enc(k, iv, m, u8(b), u8(r), b.size());
	return r;
}
Bytes Cfb::dec(const ref::Magma &k, const Bytes &b) const
{
	rt::Quiet q;
	Bytes r(b.size());
	ref::cfb_dec(k, iv, m, u8(b), u8(r), b.size());
	return r;
}
Cfb Cfb::after(const Bytes &c, size_t n) const
{
	rt::Quiet q;
	Cfb r = *this;
	for (size_t i = 0; i + 8 <= n; i += 8) {
		uint64_t w;
		memcpy(&w, u8(c) + i, 8);
		if (m == 1) {
			r.iv[0] = w;
		} else {
			r.iv[0] = r.iv[1];
			r.iv[1] = w;
		}
	}
	return r;
}
Cfb gen_cfb()
{
	Cfb c;
	c.m = 1 + int(rt::choose(rt::OPS, 2));
	c.iv[0] = gen_word();
	c.iv[1] = rt::chance(rt::DATA, 50) ? c.iv[0] : gen_word();
	return c;
}
Bytes ecb_enc(const ref::Magma &k, const Bytes &b)
{
	rt::Quiet q;
	Bytes r(b.size());
	ref::ecb_enc(k, u8(b), u8(r), b.size());
	return r;
}
Bytes ecb_dec(const ref::Magma &k, const Bytes &b)
{
	rt::Quiet q;
	Bytes r(b.size());
	ref::ecb_dec(k, u8(b), u8(r), b.size());
	return r;
}
ref::U128 u(const pair<uint64_t, uint64_t> &v) { return {v.first, v.second}; }
uint64_t u(const pair<uint32_t, uint32_t> &v) { return v.first | (uint64_t(v.second) << 32); }
ref::U128 mask(ref::U128 v, size_t size)
{
	if (size >= 16) return v;
	if (size >= 8) return {v.lo, size == 8 ? 0 : v.hi & ((1ull << (8 * (size - 8))) - 1)};
	return {v.lo & ((1ull << (8 * size)) - 1), 0};
}
Bytes to_bytes(ref::U128 v)
{
	rt::Quiet q;
	Bytes b(16);
	memcpy(b.data(), &v.lo, 8);
	memcpy(b.data() + 8, &v.hi, 8);
	return b;
}
Bytes to_bytes(uint64_t v)
{
	rt::Quiet q;
	Bytes b(8);
	memcpy(b.data(), &v, 8);
	return b;
}
Bytes drain(shared_ptr<const Source> s, size_t min_req, size_t limit)
{
	Bytes got;
	for (int idle = 0; got.size() <= limit + 64; ) {
		size_t n = min_req + gen_piece(64);
		if (idle++ > 20 && n == 0) n = 1;
		Bytes b;
		{
			rt::Lib l;
			std::tie(b, s) = s->read(n);
		}
		if (b.size() > n) rt::violation("too-many-bytes", "read(%zu) returned %zu bytes", n, b.size());
		if (!s) rt::violation("null-handle", "read() returned no successor");
		if (b.empty() && n > 0) break;
		append(got, b);
	}
	return got;
}

}  // namespace sim
