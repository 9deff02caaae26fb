// Scenarios about MACs, counter mode, stack use and damaged keys.
#include <locale>
#include "jobs.h"
#include "scn.h"
#include <algorithm>

namespace sim {

static bool same(ref::U128 a, ref::U128 b) { return a.lo == b.lo && a.hi == b.hi; }

// C11: the Magma and GOST 28147-89 MACs over any source.
void c11_magma_mac()
{
	cfg.short_read = rt::chance(rt::OPS, 700) ? 100 + 150 * unsigned(rt::choose(rt::OPS, 7)) : 0;
	const bool faulty = rt::chance(rt::OPS, 300);
	if (faulty) cfg.read_error = 20u << rt::choose(rt::OPS, 4);
	const MagmaKey k = gen_magma_key();
	const Bytes d = gen_bytes(gen_length(1500));
	if (d.size() % 8) rt::probe(rt::P_mac_partial);
	if (d.empty()) rt::probe(rt::P_mac_empty);
	const uint64_t want = ref::magma_mac(k.ref, u8(d), d.size());
	const uint64_t r = k.ref.enc(0);
	if (((r << 1) ^ ((r >> 63) ? 0x1b : 0)) >> 63) rt::probe(rt::P_mac_k2_msb);
	// 0 persistent source, 1 file, 2 over a decrypting source, 3 over a task's channel
	const int how = int(rt::choose(rt::OPS, 4));
	File file{d};
	const Cfb c = gen_cfb();
	Channel *ch = nullptr;
	shared_ptr<const Source> src;
	switch (how) {
	case 1: src = make_shared<FileSource>(&file); break;
	case 2: rt::probe(rt::P_nested_streams); src = c.source(mem_source(c.enc(k.ref, d)), k.any); break;
	default: src = mem_source(d);
	}
	if (how == 3) {
		// the message arrives through a channel while the MAC is being computed
		rt::sched_config();
		cfg.read_error = 0;
		ch = new Channel;
		ch->capacity = 1 + rt::choose(rt::OPS, 24);
		struct Ctx { Channel *ch; const Bytes *d; vector<size_t> p; shared_ptr<magma::Imit> mac; uint64_t got; };
		Ctx *x = new Ctx{ch, &d, gen_pieces(d.size(), 1),
			made<magma::Imit>(make_shared<ChannelSource>(ch), k.key), 0};
		rt::parallel(2, [](void *arg, int id) {
			Ctx *y = static_cast<Ctx *>(arg);
			if (id == 1) {
				shared_ptr<const Sink> s = make_shared<ChannelSink>(y->ch);
				size_t off = 0;
				for (const size_t n : y->p) {
					s = s->write(slice(*y->d, off, n));
					off += n;
				}
				close(*y->ch);
				return;
			}
			rt::Lib l;
			y->got = u(y->mac->value());
		}, x);
		if (x->got != want) rt::violation("wrong-mac", "MAC of a %zu-byte message read from a channel", d.size());
		delete x;
		delete ch;
		return;
	}
	shared_ptr<magma::Imit> mac;
	{
		rt::Lib l;
		mac = made<magma::Imit>(src, k.key);
	}
	for (int i = 0; i < 12; i++) {
		cfg.armed = i < 10;
		const uint32_t before = cfg.last_error[0];
		uint64_t got = 0;
		const Outcome o = attempt([&] { got = u(mac->value()); });
		rt::probe(rt::P_ops);
		if (o.r == OK) {
			if (cfg.last_error[0] != before)
				rt::violation("mac-despite-error", "a MAC was produced although reading the message failed");
			if (got != want)
				rt::violation("wrong-mac", "MAC of a %zu-byte message is %016llx instead of %016llx",
					d.size(), (unsigned long long)got, (unsigned long long)want);
			if (how == 1 || (how == 0 && i > 0)) break;      // a file is consumed by the first pass
			if (rt::choose(rt::OPS, 2)) break;
		} else {
			if (o.r != SIM_ERROR || cfg.last_error[0] == before)
				rt::violation("spurious-error", "computing a MAC ended with %s", name(o.r));
			rt::probe(rt::P_retry_after_fault);
			file.pos = 0;
		}
	}
	// the older MAC over the same bytes
	const vector<uint8_t> v(u8(d), u8(d) + d.size());
	vector<uint8_t> g;
	{
		rt::Lib l;
		g = gost89::DataImit(v, k.key).value();
	}
	Bytes gb(g.size());
	memcpy(gb.data(), g.data(), g.size());
	expect(gb, to_bytes(ref::gost89_mac(k.ref, u8(d), d.size())), "wrong-mac", "GOST 28147-89 MAC");
}

// C12: the Kuznyechik MAC over any stream.
void c12_kuz_mac()
{
	const KuzParams p = gen_kuz();
	const auto key = build(p);
	size_t n = 1 + rt::choose(rt::OPS, rt::chance(rt::OPS, 100) ? 24 : rt::chance(rt::OPS, 5) ? 300 : 6);
	if (rt::chance(rt::OPS, 8)) n = 1 + gen_boundary(rt::choose(rt::OPS, 1 << 12), 4, 260);
	const auto b = gen_blocks(n);
	if (ref::kuz_k1_msb(p.ref)) rt::probe(rt::P_mac_k2_msb);
	size_t last = 16;
	shared_ptr<const kuz::Stream> st;
	auto msg = b;
	switch (rt::choose(rt::OPS, 4)) {
	case 0: st = made<kuz::StMemory>(words(b, false)); break;
	case 1:
		// an odd number of 64-bit words: the last block is half a block
		st = made<kuz::StMemory>(words(b, true));
		msg.back().hi = 0;
		last = 8;
		break;
	case 2: {
		last = 16 - rt::choose(rt::OPS, 16);
		st = make_shared<SimStream>(b, last);
		msg.back() = mask(msg.back(), last);
		break;
	}
	default: {
		const uint64_t iv = gen_word();
		st = made<kuz::StCTREncrypted>(make_shared<SimStream>(b, last), key, iv);
		for (size_t i = 0; i < n; i++) msg[i] = ref::kuz_ctr(p.ref, iv, i, b[i]);
		rt::probe(rt::P_nested_streams);
	}
	}
	if (last < 16) rt::probe(rt::P_mac_partial);
	if (rt::chance(rt::OPS, 300)) {
		cfg.stream_error = 20u << rt::choose(rt::OPS, 3);
		if (rt::choose(rt::OPS, 2)) cfg.block_error = 50;
	}
	const ref::U128 want = ref::kuz_mac(p.ref, msg.data(), n, last);
	shared_ptr<kuz::Imit> mac;
	{
		rt::Lib l;
		mac = made<kuz::Imit>(st, key);
	}
	if (rt::chance(rt::OPS, 300)) st.reset();
	for (int i = 0; i < 6; i++) {
		cfg.armed = i < 4;
		const uint32_t before = cfg.last_error[0];
		ref::U128 got = {0, 0};
		const Outcome o = attempt([&] { got = u(mac->value()); });
		rt::probe(rt::P_ops);
		if (o.r == OK) {
			if (cfg.last_error[0] != before)
				rt::violation("mac-despite-error", "a MAC was produced although reading the message failed");
			if (!same(got, want))
				rt::violation("wrong-mac", "MAC of %zu blocks (last %zu bytes) is %016llx%016llx instead of %016llx%016llx",
					n, last, (unsigned long long)got.hi, (unsigned long long)got.lo,
					(unsigned long long)want.hi, (unsigned long long)want.lo);
			break;
		}
		if (o.r != SIM_ERROR || cfg.last_error[0] == before)
			rt::violation("spurious-error", "computing a MAC ended with %s", name(o.r));
		rt::probe(rt::P_retry_after_fault);
	}
}

// A long stream is walked to the end, looking at a few of its blocks.
static void far_walk()
{
	rt::probe(rt::P_far_walk);
	const KuzParams p = gen_kuz();
	const auto key = build(p);
	const size_t n = rt::chance(rt::OPS, 50) ? 65530 + rt::choose(rt::OPS, 200) : 2 + rt::choose(rt::OPS, 700);
	const auto b = gen_blocks(n);
	const uint64_t iv = gen_word();
	const bool half = rt::choose(rt::OPS, 2);
	vector<size_t> stops = {255, 256, 257, 65535, 65536, n - 1};
	for (int i = 0; i < 4; i++) stops.push_back(rt::choose(rt::OPS, n));
	shared_ptr<const kuz::Stream> st = made<kuz::StMemory>(words(b, half));
	rt::Lib l;
	st = made<kuz::StCTREncrypted>(st, key, iv);
	auto it = st->iter();
	for (size_t i = 0; ; i++) {
		if (!it) rt::violation("null-iterator", "no iterator at block %zu of %zu", i, n);
		const bool is_last = it->last();
		if (is_last != (i + 1 == n)) rt::violation("wrong-end", "last() is %d at block %zu of %zu", is_last, i, n);
		const size_t want_size = is_last && half ? 8 : 16;
		if (it->size() != want_size) rt::violation("wrong-size", "size() is wrong at block %zu of %zu", i, n);
		if (std::find(stops.begin(), stops.end(), i) != stops.end()) {
			const ref::U128 v = mask(u(it->value()), want_size);
			if (!same(v, mask(ref::kuz_ctr(p.ref, iv, i, b[i]), want_size)))
				rt::violation("wrong-block", "block %zu of %zu of a CTR stream is wrong", i, n);
		}
		if (is_last) break;
		it = it->next();
	}
}

// C13: counter mode through iterators.
void c13_ctr()
{
	if (rt::chance(rt::OPS, 30)) return far_walk();
	const KuzParams p = gen_kuz();
	const auto key = build(p);
	const size_t n = 1 + rt::choose(rt::OPS, rt::chance(rt::OPS, 100) ? 40 : 6);
	const auto b = gen_blocks(n);
	const uint64_t iv = gen_word();
	size_t last = 16;
	auto data = b;
	shared_ptr<const kuz::Stream> st;
	switch (rt::choose(rt::OPS, 3)) {
	case 0: st = made<kuz::StMemory>(words(b, false)); break;
	case 1: st = made<kuz::StMemory>(words(b, true)); last = 8; data.back().hi = 0; break;
	default: last = 16 - rt::choose(rt::OPS, 16); st = make_shared<SimStream>(b, last);
	}
	if (last < 16) rt::probe(rt::P_partial_last_block);
	const int layers = 1 + int(rt::choose(rt::OPS, 2));
	vector<uint64_t> ivs;
	for (int i = 0; i < layers; i++) {
		ivs.push_back(i && rt::choose(rt::OPS, 2) ? iv : i ? gen_word() : iv);
		st = made<kuz::StCTREncrypted>(st, key, ivs.back());
	}
	if (layers > 1) rt::probe(rt::P_nested_streams);
	if (rt::chance(rt::OPS, 300)) {
		cfg.stream_error = 20u << rt::choose(rt::OPS, 3);
		if (rt::choose(rt::OPS, 2)) cfg.block_error = 50;
	}
	// only the first size() bytes of a block carry data
	const auto want = [&](size_t i) {
		ref::U128 v = data[i];
		for (const uint64_t x : ivs) v = ref::kuz_ctr(p.ref, x, i, v);
		return mask(v, i + 1 == n ? last : 16);
	};
	const auto retry = [&](auto op, const char *what) {
		for (int i = 0; ; i++) {
			cfg.armed = i < 4;
			const uint32_t before = cfg.last_error[0];
			const Outcome o = attempt(op);
			rt::probe(rt::P_ops);
			if (o.r == OK) {
				if (cfg.last_error[0] != before)
					rt::violation("error-swallowed", "%s succeeded although the stream failed", what);
				break;
			}
			if (o.r != SIM_ERROR || cfg.last_error[0] == before)
				rt::violation("spurious-error", "%s ended with %s", what, name(o.r));
			rt::probe(rt::P_retry_after_fault);
		}
		cfg.armed = true;
	};
	const int walkers = 1 + int(rt::choose(rt::OPS, 2));
	vector<shared_ptr<const kuz::Iterator>> it(size_t(walkers), nullptr);
	vector<size_t> at(size_t(walkers), 0);
	for (auto &x : it) retry([&] { x = st->iter(); }, "iter()");
	if (rt::chance(rt::OPS, 300)) st.reset();
	size_t budget = 3 * n + 6;
	size_t done = 0;
	while (budget-- && done < size_t(walkers)) {
		const size_t w = rt::choose(rt::OPS, size_t(walkers));
		if (!it[w]) continue;
		bool is_last = false;
		size_t sz = 0;
		retry([&] { is_last = it[w]->last(); }, "last()");
		retry([&] { sz = it[w]->size(); }, "size()");
		if (is_last != (at[w] + 1 == n)) rt::violation("wrong-end", "last() is %d at block %zu of %zu", is_last, at[w], n);
		const size_t want_size = is_last ? last : 16;
		if (sz != want_size) rt::violation("wrong-size", "size() is %zu instead of %zu at block %zu of %zu", sz, want_size, at[w], n);
		if (rt::chance(rt::OPS, 700) || is_last) {
			ref::U128 v = {0, 0};
			retry([&] { v = u(it[w]->value()); }, "value()");
			v = mask(v, want_size);
			if (!same(v, want(at[w])))
				rt::violation("wrong-block", "block %zu of %zu of a CTR stream is %016llx%016llx instead of %016llx%016llx",
					at[w], n, (unsigned long long)v.hi, (unsigned long long)v.lo,
					(unsigned long long)want(at[w]).hi, (unsigned long long)want(at[w]).lo);
		}
		if (is_last) {
			it[w].reset();
			done++;
			continue;
		}
		shared_ptr<const kuz::Iterator> next;
		retry([&] { next = it[w]->next(); }, "next()");
		if (!next) rt::violation("null-iterator", "next() gives nothing at block %zu of %zu", at[w], n);
		it[w] = next;
		at[w]++;
	}
	// the counter itself, across its 64-bit boundary
	const ref::U128 c = {gen_word(), gen_word()};
	if (c.lo == ~0ull) rt::probe(rt::P_ctr_carry);
	ref::U128 got;
	{
		rt::Lib l;
		got = u(kuz::BlkIncremented(made<kuz::BlkRaw>(c.lo, c.hi)).value());
	}
	if (!same(got, ref::inc128(c))) rt::violation("wrong-counter", "incrementing %016llx%016llx gives %016llx%016llx",
		(unsigned long long)c.hi, (unsigned long long)c.lo, (unsigned long long)got.hi, (unsigned long long)got.lo);
}

// C15: stack use does not grow with the length of the data.
namespace {
enum Long { L_SINK_ONE, L_SINK_MANY, L_SOURCE_ONE, L_SOURCE_MANY, L_ECB_SINK, L_ECB_SOURCE, L_MAC,
	L_GOST_MAC, L_KUZ_MAC, L_CTR, L_CTR2, L_STMEM, L_CTR_MAC, L_COUNT };
const char *const long_name[] = {"one CFB write", "many CFB writes", "one CFB read", "many CFB reads",
	"ECB writes", "ECB reads", "magma::Imit", "gost89::DataImit", "kuznyechik::Imit", "StCTREncrypted",
	"nested StCTREncrypted", "StMemory", "kuznyechik::Imit over StCTREncrypted"};

struct LongRun {
	int kind;
	size_t blocks;
	Cfb c;
	MagmaKey k;
	KuzParams kp;
	shared_ptr<const kuz::Key> kk;
	Bytes data;
	uint64_t used;
	Device dev;
	int keep;        // 0: no earlier handle is kept, 1: the first, 2: some, 3: all
	bool peek;       // look at every position on the way
};
// Handles that are kept while the operation goes on, and dropped after it.
struct Kept {
	explicit Kept(int mode) : mode(mode), n(0), all() { all.reserve(64); }
	template<class T> void operator()(const shared_ptr<T> &p)
	{
		if (mode == 3 || (mode && !n) || (mode == 2 && n % 37 == 5)) all.push_back(p);
		n++;
	}
	const int mode;
	size_t n;
	vector<shared_ptr<const void>> all;
};
// Everything that is measured happens in here, including destruction.
__attribute__((noinline)) void long_body(LongRun *r)
{
	const size_t n = r->blocks * 8;
	Kept kept(r->keep);
	switch (r->kind) {
	case L_SINK_ONE: case L_SINK_MANY: {
		shared_ptr<const Sink> s = r->c.sink(make_shared<DevSink>(&r->dev), r->k.any);
		kept(s);
		if (r->kind == L_SINK_ONE) s = s->write(r->data);
		else for (size_t i = 0; i < n; i += 8) {
			s = s->write(slice(r->data, i, 8));
			kept(s);
		}
		s->finalize();
		return;
	}
	case L_SOURCE_ONE: case L_SOURCE_MANY: {
		shared_ptr<const Source> s = r->c.source(mem_source(r->data), r->k.any);
		kept(s);
		if (r->kind == L_SOURCE_ONE) {
			r->dev.durable = s->read(n).first;
			return;
		}
		for (;;) {
			Bytes b;
			std::tie(b, s) = s->read(5);
			kept(s);
			if (b.empty()) break;
			append(r->dev.durable, b);
		}
		return;
	}
	case L_ECB_SINK: {
		shared_ptr<const Sink> s = made<magma::ECBSink>(make_shared<DevSink>(&r->dev), r->k.any);
		s = s->write(slice(r->data, 0, n / 16 * 8));
		s = s->write(slice(r->data, n / 16 * 8, n));
		s->finalize();
		return;
	}
	case L_ECB_SOURCE: {
		shared_ptr<const Source> s = made<magma::ECBSource>(mem_source(r->data), r->k.any);
		for (;;) {
			Bytes b;
			std::tie(b, s) = s->read(64);
			kept(s);
			if (b.empty()) break;
			append(r->dev.durable, b);
		}
		return;
	}
	case L_MAC:
		r->dev.durable = to_bytes(u(magma::Imit(mem_source(r->data), r->k.key).value()));
		return;
	case L_GOST_MAC: {
		const auto v = gost89::DataImit(vector<uint8_t>(u8(r->data), u8(r->data) + n), r->k.key).value();
		r->dev.durable.resize(v.size());
		memcpy(r->dev.durable.data(), v.data(), v.size());
		return;
	}
	default: {
		vector<uint64_t> w(r->blocks * 2);
		memcpy(w.data(), r->data.data(), r->blocks * 16);
		const auto st = made<kuz::StMemory>(w);
		if (r->kind == L_KUZ_MAC) {
			r->dev.durable = to_bytes(u(kuz::Imit(st, r->kk).value()));
			return;
		}
		shared_ptr<const kuz::Stream> top = st;
		if (r->kind != L_STMEM) top = made<kuz::StCTREncrypted>(top, r->kk, r->c.iv[0]);
		if (r->kind == L_CTR2) top = made<kuz::StCTREncrypted>(top, r->kk, r->c.iv[1]);
		if (r->kind == L_CTR_MAC) {
			r->dev.durable = to_bytes(u(kuz::Imit(top, r->kk).value()));
			return;
		}
		auto it = top->iter();
		kept(it);
		for (size_t i = 0; i + 1 < r->blocks; i++) {
			if (r->peek && (it->last() || it->size() != 16))
				rt::violation("wrong-result", "%s: wrong last() or size() at block %zu of %zu", long_name[r->kind], i, r->blocks);
			it = it->next();
			kept(it);
		}
		r->dev.durable = to_bytes(u(it->value()));
	}
	}
}
__attribute__((noinline)) void long_measure(LongRun *r)
{
	rt::stack_reset();
	rt::Lib l;
	long_body(r);
	r->used = rt::stack_used();
}
void long_task(void *arg, int) { long_measure(static_cast<LongRun *>(arg)); }
Bytes long_want(const LongRun &r)
{
	switch (r.kind) {
	case L_SINK_ONE: case L_SINK_MANY: return r.c.enc(r.k.ref, r.data);
	case L_SOURCE_ONE: case L_SOURCE_MANY: return r.c.dec(r.k.ref, r.data);
	case L_ECB_SINK: return ecb_enc(r.k.ref, r.data);
	case L_ECB_SOURCE: return ecb_dec(r.k.ref, r.data);
	case L_MAC: return to_bytes(ref::magma_mac(r.k.ref, u8(r.data), r.data.size()));
	case L_GOST_MAC: return to_bytes(ref::gost89_mac(r.k.ref, u8(r.data), r.data.size()));
	default: break;
	}
	vector<ref::U128> b(r.blocks);
	memcpy(&b[0], r.data.data(), r.blocks * 16);
	if (r.kind == L_KUZ_MAC) return to_bytes(ref::kuz_mac(r.kp.ref, b.data(), b.size(), 16));
	if (r.kind == L_CTR_MAC) {
		for (size_t i = 0; i < b.size(); i++) b[i] = ref::kuz_ctr(r.kp.ref, r.c.iv[0], i, b[i]);
		return to_bytes(ref::kuz_mac(r.kp.ref, b.data(), b.size(), 16));
	}
	if (r.kind == L_STMEM) return to_bytes(b.back());
	if (r.kind == L_CTR2) b.back() = ref::kuz_ctr(r.kp.ref, r.c.iv[1], r.blocks - 1, b.back());
	return to_bytes(ref::kuz_ctr(r.kp.ref, r.c.iv[0], r.blocks - 1, b.back()));
}
}  // namespace

void c15_stack()
{
	LongRun *r = new LongRun;
	r->kind = int(rt::choose(rt::OPS, L_COUNT));
	r->c = gen_cfb();
	const bool is_kuz = r->kind >= L_KUZ_MAC;
	if (is_kuz) {
		r->kp = gen_kuz();
		r->kk = build(r->kp);
	} else {
		r->k = gen_magma_key();
	}
	const size_t base = 4;
	const bool far = rt::chance(rt::OPS, 15);
	r->keep = int(rt::choose(rt::OPS, 4));
	r->peek = rt::choose(rt::OPS, 2);
	const size_t many = (r->kind == L_CTR || r->kind == L_CTR2 || r->kind == L_STMEM) ? 12 + rt::choose(rt::OPS, far ? 20000 : 400) :
		is_kuz ? 12 + rt::choose(rt::OPS, far ? 600 : 50) : 16 + rt::choose(rt::OPS, far ? 6000 : 800);
	rt::probe(rt::P_deep_stream);
	if (rt::chance(rt::OPS, 300)) {
		// a task with a small stack, as embedded systems and thread pools have
		rt::fired(rt::F_small_stack);
		rt::set_stack_size(256 << 10);
		r->blocks = many;
		r->data = gen_bytes(many * (is_kuz ? 16 : 8));
		rt::parallel(1, long_task, r);
		expect(r->dev.durable, long_want(*r), "wrong-result", long_name[r->kind]);
		delete r;
		return;
	}
	uint64_t used[4] = {};
	const size_t sizes[4] = {base, base, many, 3 * many};
	// the first pass warms caches and one-time initialisation; the last decides
	// whether what grew is a fixed amount for long data or grows on
	for (int i = 0; i < 4; i++) {
		if (i == 3 && used[2] <= used[1] + 1024) break;
		r->blocks = sizes[i];
		r->data = gen_bytes(sizes[i] * (is_kuz ? 16 : 8));
		r->dev = Device();
		long_measure(r);
		used[i] = r->used;
		expect(r->dev.durable, long_want(*r), "wrong-result", long_name[r->kind]);
		rt::event(80, uint64_t(r->kind), sizes[i]);
	}
	if (used[3] && used[3] >= used[2] + (used[2] - used[1]))
		rt::violation("stack-grows", "%s: %llu bytes of stack for %zu blocks, %llu for %zu, %llu for %zu", long_name[r->kind],
			(unsigned long long)used[1], base, (unsigned long long)used[2], many, (unsigned long long)used[3], 3 * many);
	delete r;
}

// C16: damaged key material is refused, never used.
void c16_damaged_key()
{
	const int what = int(rt::choose(rt::OPS, 6));
	const bool damage = rt::chance(rt::OPS, 750);
	if (what == 0) {
		// key container
		const MagmaParams p = gen_magma();
		auto box = make_container(p);
		if (damage) {
			rt::Quiet q;
			const uint64_t kind = rt::choose(rt::FAULT, 4);
			Bytes &b = kind < 2 ? box->k : box->s;
			const size_t full = b.size();
			if (kind % 2 == 0) {
				rt::fired(kind < 2 ? rt::F_key_short : rt::F_sbox_short);
				b.resize(rt::choose(rt::FAULT, full));
			} else {
				rt::fired(kind < 2 ? rt::F_key_long : rt::F_sbox_long);
				append(b, gen_bytes(1 + rt::choose(rt::FAULT, 300)));
			}
		}
		const Bytes cipher = gen_bytes(8 * (1 + rt::choose(rt::OPS, 4)));
		Bytes got;
		const Outcome o = attempt([&] {
			shared_ptr<const Source> s = made<magma::ECBSource>(mem_source(cipher), box);
			for (;;) {
				Bytes b;
				std::tie(b, s) = s->read(8);
				if (b.empty()) break;
				append(got, b);
			}
		});
		if (damage) {
			if (o.r != REFUSED || !got.empty())
				rt::violation("damaged-key-used", "a container with a %zu-byte key and a %zu-byte sbox ended with %s after %zu bytes",
					box->k.size(), box->s.size(), name(o.r), got.size());
			rt::probe(rt::P_rejected_damaged_key);
		} else {
			if (o.r != OK) rt::violation("valid-key-refused", "an intact container ended with %s", name(o.r));
			expect(got, ecb_dec(p.ref, cipher), "wrong-plaintext", "plaintext");
			rt::probe(rt::P_accepted_valid_key);
		}
		return;
	}
	const bool is_kuz = what == 1 || what == 2;
	MagmaParams mp;
	KuzParams kp;
	std::string text;
	if (is_kuz) {
		kp = gen_kuz();
		text = kuz_text(kp, int(rt::choose(rt::OPS, 3)));
	} else {
		mp = gen_magma();
		text = key_text(mp.ref.k, int(rt::choose(rt::OPS, 3)));
	}
	vector<uint32_t> native(mp.ref.k, mp.ref.k + 8);
	const bool as_words = what == 4;
	if (what == 5) {
		// a substitution table handed over directly
		vector<uint8_t> packed = packed_sbox(mp);
		vector<vector<int>> rows = nibble_rows(mp);
		const bool nibbles = rt::choose(rt::OPS, 2);
		if (damage) {
			rt::Quiet q;
			const bool shorter = rt::choose(rt::FAULT, 2);
			rt::fired(shorter ? rt::F_sbox_short : rt::F_sbox_long);
			vector<int> &row = rows[size_t(rt::choose(rt::FAULT, 8))];
			const size_t full = nibbles ? row.size() : packed.size();
			const size_t n = shorter ? rt::choose(rt::FAULT, full) : full + 1 + rt::choose(rt::FAULT, 70);
			if (nibbles) row.resize(n, 5); else packed.resize(n, 0x55);
			row.shrink_to_fit();
			packed.shrink_to_fit();
		}
		const uint64_t w = gen_word();
		const bool stream = rt::choose(rt::OPS, 2);
		Bytes got;
		const Outcome o = attempt([&] {
			shared_ptr<const magma::Sbox> box;
			if (nibbles) {
				auto inner = made_unique<const magma::SboxNibble>(vector<int>(rows[0]), vector<int>(rows[1]), vector<int>(rows[2]),
					vector<int>(rows[3]), vector<int>(rows[4]), vector<int>(rows[5]), vector<int>(rows[6]), vector<int>(rows[7]));
				box = made<magma::SboxTwisted>(std::move(inner));
			} else {
				auto inner = made_unique<const magma::SboxByte>(vector<uint8_t>(packed));
				box = made<magma::SboxTwisted>(std::move(inner));
			}
			const auto k = made<magma::LazyKey>(native, box);
			if (stream) {
				shared_ptr<const Sink> s = made<gost89::CFBSink>(make_shared<MemSink>(), k, w);
				got = content_of(s->write(Bytes(8))->finalize());
			} else {
				got = to_bytes(u(magma::BlkEncrypted(made<magma::BlkRaw>(w), k).value()));
			}
		});
		if (damage) {
			if (o.r != REFUSED || !got.empty())
				rt::violation("damaged-key-used", "a substitution table of the wrong size ended with %s", name(o.r));
			rt::probe(rt::P_rejected_damaged_key);
		} else {
			if (o.r != OK) rt::violation("valid-key-refused", "an intact substitution table ended with %s", name(o.r));
			expect(got, to_bytes(mp.ref.enc(w)), "wrong-result", "a block made with a valid table");
			rt::probe(rt::P_accepted_valid_key);
		}
		return;
	}
	if (damage && as_words) {
		rt::Quiet q;
		rt::fired(rt::F_key_short);
		native.resize(rt::choose(rt::FAULT, 8));
		native.shrink_to_fit();
	} else if (damage) {
		rt::Quiet q;
		// any character that is no hexadecimal digit, some more likely
		const auto junk = [] {
			static const char likely[] = {' ', '\n', '\0', '\t', '\r', '-', '+', 'x', 'X', 'g', 'G', ':', '/', '@', '`', '.', ',', 'O', 'l', 'h'};
			const uint64_t i = rt::choose(rt::FAULT, sizeof likely + 40);
			if (i < sizeof likely) return likely[i];
			const char c = char(rt::choose(rt::FAULT, 256));
			return strchr("0123456789abcdefABCDEF", c) ? ' ' : c;
		};
		switch (rt::choose(rt::FAULT, 6)) {
		case 0: rt::fired(rt::F_key_short); text.resize(rt::choose(rt::FAULT, 64)); break;
		case 1: {
			rt::fired(rt::F_key_long);
			const size_t n = 1 + rt::choose(rt::FAULT, 70);
			for (size_t i = 0; i < n; i++) text += "0123456789abcdef"[rt::choose(rt::DATA, 16)];
			break;
		}
		case 2: {
			// line ends, separators, prefixes: something put in, all digits there
			rt::fired(rt::F_key_long);
			const size_t n = 1 + rt::choose(rt::FAULT, 3);
			const size_t at = rt::choose(rt::FAULT, 3) == 0 ? 64 : rt::choose(rt::FAULT, 2) ? 0 : rt::choose(rt::FAULT, 65);
			for (size_t i = 0; i < n; i++) text.insert(at, 1, junk());
			break;
		}
		case 3:
			rt::fired(rt::F_key_long);
			text = (rt::choose(rt::FAULT, 2) ? "0x" : "0X") + text;
			break;
		case 4: {
			// something put in, and digits lost so that the length is right
			rt::fired(rt::F_key_flip);
			const size_t n = 1 + rt::choose(rt::FAULT, 3);
			const size_t at = rt::choose(rt::FAULT, 65 - n);
			for (size_t i = 0; i < n; i++) text.insert(at, 1, junk());
			if (rt::choose(rt::FAULT, 2)) text.resize(64); else text.erase(0, n);
			if (text.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos) text[at ? at - 1 : 0] = junk();
			break;
		}
		default: {
			rt::fired(rt::F_key_flip);
			const size_t n = 1 + rt::choose(rt::FAULT, 2);
			for (size_t i = 0; i < n; i++) text[size_t(rt::choose(rt::FAULT, 64))] = junk();
		}
		}
	}
	Bytes got;
	Bytes want;
	const uint64_t w = gen_word();
	const int use = int(rt::choose(rt::OPS, 4));
	const Outcome o = attempt([&] {
		if (is_kuz) {
			shared_ptr<const kuz::Key> k;
			// the user's texts and tables are temporaries, gone before the first use
			if (what == 1) {
				k = made<kuz::Key>(std::string(text));
			} else {
				const auto data = made<kuz::KeyDataString>(std::string(text));
				k = made<kuz::Key>(data);
			}
			if (use == 0) {
				got = to_bytes(u(kuz::Imit(made<kuz::StMemory>(vector<uint64_t>{w, w}), k).value()));
			} else if (use == 1) {
				got = to_bytes(u(kuz::StCTREncrypted(made<kuz::StMemory>(vector<uint64_t>{w, w}), k, w).iter()->value()));
			} else {
				got = to_bytes(u(kuz::BlkEncrypted(made<kuz::BlkRaw>(w, w), k).value()));
			}
			return;
		}
		shared_ptr<const magma::LazyKey> k;
		if (as_words) {
			k = made<magma::LazyKey>(vector<uint32_t>(native), make_sbox(mp));
		} else if (use & 1) {
			k = made<magma::LazyKey>(std::string(text), make_sbox(mp));
		} else {
			auto data = made_unique<const magma::KeyDataString>(std::string(text));
			k = made<magma::LazyKey>(std::move(data), make_sbox(mp));
		}
		if (use < 2) {
			got = to_bytes(u(magma::BlkEncrypted(made<magma::BlkRaw>(w), k).value()));
		} else if (use == 2) {
			got = to_bytes(magma::EncryptionBase(k).transform(w));
		} else {
			shared_ptr<const Sink> s = made<gost89::CFBSink>(make_shared<MemSink>(), k, w);
			got = content_of(s->write(Bytes(8))->finalize());
		}
	});
	if (damage) {
		if (o.r != REFUSED || !got.empty())
			rt::violation("damaged-key-used", "a damaged key (%zu characters \"%s\"%s) was used: %s", as_words ? native.size() : text.size(),
				as_words ? "native words" : text.c_str(), is_kuz ? ", Kuznyechik" : ", Magma", name(o.r));
		rt::probe(rt::P_rejected_damaged_key);
		return;
	}
	if (o.r != OK) rt::violation("valid-key-refused", "a valid key ended with %s", name(o.r));
	if (is_kuz) {
		const ref::U128 b = {w, w};
		want = use == 0 ? to_bytes(ref::kuz_mac(kp.ref, &b, 1, 16))
			: use == 1 ? to_bytes(ref::kuz_ctr(kp.ref, w, 0, b)) : to_bytes(kp.ref.enc(b));
	} else {
		want = to_bytes(mp.ref.enc(w));
	}
	expect(got, want, "wrong-result", "a block made with a valid key");
	rt::probe(rt::P_accepted_valid_key);
}

}  // namespace sim

#define S(id, fn) {id, #fn, sim::fn}
extern const Scenario scenarios[] = {
	S("C01", c01_cfb_split), S("C02", c02_cfb_read), S("C03", c03_ecb), S("C04", c04_pipeline),
	S("C05", c05_fault_atomicity), S("C06", c06_crash_resume), S("C07", c07_corruption),
	S("C08", c08_sharing), S("C09", c09_caches), S("C10", c10_alloc), S("C11", c11_magma_mac),
	S("C12", c12_kuz_mac), S("C13", c13_ctr), S("C14", c14_lifetime), S("C15", c15_stack),
	S("C16", c16_damaged_key), S("C17", c17_branching),
	S("C18", c18_dialogue), S("C19", c19_follow),
	S("C24", c24_cost), S("C25", c25_independence), S("C26", c26_release),
};
// A program may run under any locale; texts of keys must not depend on it.
template <char sep>
struct OddPunct : std::numpunct<char> {
	OddPunct() : std::numpunct<char>(1) {}
	~OddPunct() override = default;
	char do_thousands_sep() const override { return sep; }
	std::string do_grouping() const override { return "\1"; }
	char do_decimal_point() const override { return ','; }
};
void scenario_reset(const char *id)
{
	static bool odd = false;
	if (odd) std::locale::global(std::locale::classic());
	odd = rt::chance(rt::DATA, 60);
	if (odd) {
		static const OddPunct<'.'> dot;
		static const OddPunct<'a'> digit;
		const std::numpunct<char> *p = &dot;
		// where a separator can be taken for a digit
		if (!strcmp(id, "C16") && rt::chance(rt::DATA, 500)) p = &digit;
		std::locale::global(std::locale(std::locale::classic(), p));
		rt::probe(rt::P_odd_locale);
	}
	rt::odd_environment();
	sim::cfg = sim::Cfg();
	sim::cfg.plain_texts = strstr("C08 C10 C14 C17 C25 C26", id) != nullptr;
	sim::cfg.self_handles = rt::chance(rt::DATA, 300);
	const uint64_t own = rt::choose(rt::DATA, 10);
	if (own >= 7) {
		sim::cfg.ownership = own == 9 ? 2 : 1;
		rt::probe(rt::P_copied_or_held);
	}
}
extern const int n_scenarios = sizeof scenarios / sizeof *scenarios;
