#include "jobs.h"

namespace sim {

Env gen_env(bool with_kuz)
{
	Env e;
	e.mp = gen_magma();
	e.mk = build(e.mp);
	e.has_kuz = with_kuz;
	if (with_kuz) {
		e.kp = gen_kuz();
		e.kk = build(e.kp);
	}
	return e;
}

vector<size_t> gen_pieces(size_t total, size_t unit)
{
	rt::Quiet q;
	vector<size_t> p;
	size_t left = total / unit;
	int zeros = 0;
	while (left) {
		size_t n = gen_piece(left * unit) / unit;
		if (n == 0 && zeros++ > 3) n = 1;
		p.push_back(n * unit);
		left -= n;
	}
	return p;
}
Bytes run_sink(shared_ptr<const Sink> s, const Bytes &data, const vector<size_t> &pieces)
{
	size_t off = 0;
	for (const size_t n : pieces) {
		s = s->write(slice(data, off, n));
		off += n;
	}
	if (off < data.size()) s = s->write(slice(data, off, data.size() - off));
	s = s->finalize();
	return content_of(s);
}
Bytes run_source(shared_ptr<const Source> s, const vector<size_t> &pieces)
{
	Bytes got;
	for (size_t i = 0; ; i++) {
		const size_t n = i < pieces.size() ? pieces[i] : 64;
		auto r = s->read(n);
		if (r.first.size() > n)
			rt::violation("too-many-bytes", "read(%zu) returned %zu bytes", n, r.first.size());
		if (!r.second) rt::violation("null-handle", "read() returned no successor");
		append(got, r.first);
		s = r.second;
		if (r.first.empty() && n > 0) break;
		if (i > 100000) rt::violation("livelock", "the source never ends");
	}
	return got;
}

vector<ref::U128> gen_blocks(size_t n)
{
	rt::Quiet q;
	const Bytes b = gen_bytes(n * 16);
	vector<ref::U128> v(n);
	if (n) memcpy(&v[0], b.data(), n * 16);
	return v;
}
vector<uint64_t> words(const vector<ref::U128> &b, bool half)
{
	rt::Quiet q;
	vector<uint64_t> w;
	for (const auto &x : b) {
		w.push_back(x.lo);
		w.push_back(x.hi);
	}
	if (half && !w.empty()) w.pop_back();
	return w;
}
Bytes walk(const shared_ptr<const kuz::Iterator> &first, size_t max)
{
	Bytes out;
	auto it = first;
	for (size_t i = 0; ; i++) {
		if (!it) rt::violation("null-iterator", "the stream ended before its last block");
		if (i >= max) rt::violation("stream-too-long", "the stream goes on after its last block");
		const ref::U128 v = u(it->value());
		const size_t sz = it->size();
		append(out, to_bytes(mask(v, sz)));
		append(out, to_bytes(uint64_t(sz)));
		if (it->last()) break;
		it = it->next();
	}
	return out;
}
static Bytes walked(const vector<ref::U128> &v, size_t last_size)
{
	rt::Quiet q;
	Bytes out;
	for (size_t i = 0; i < v.size(); i++) {
		append(out, to_bytes(mask(v[i], i + 1 == v.size() ? last_size : 16)));
		append(out, to_bytes(uint64_t(i + 1 == v.size() ? last_size : 16)));
	}
	return out;
}

uint64_t fwd(const ref::Magma &m, uint64_t v)
{
	uint32_t a = uint32_t(v), b = uint32_t(v >> 32);
	for (int i = 0; i < 8; i += 2) {
		b ^= m.f(a + m.k[i]);
		a ^= m.f(b + m.k[i + 1]);
	}
	return a | (uint64_t(b) << 32);
}
uint64_t bwd(const ref::Magma &m, uint64_t v)
{
	uint32_t a = uint32_t(v), b = uint32_t(v >> 32);
	for (int i = 7; i > 0; i -= 2) {
		b ^= m.f(a + m.k[i]);
		a ^= m.f(b + m.k[i - 1]);
	}
	return a | (uint64_t(b) << 32);
}

static std::string hex_text(uint64_t hi, uint64_t lo, int digits, int style)
{
	rt::Quiet q;
	std::string s;
	for (int j = digits - 1; j >= 0; j--) {
		const uint64_t w = j >= 16 ? hi : lo;
		s += "0123456789abcdef0123456789ABCDEF"[((w >> (4 * (j % 16))) & 15) + (style ? 16 : 0)];
	}
	return s;
}

vector<MagmaNode> gen_magma_dag(const Env &e, int n)
{
	vector<MagmaNode> d;
	const auto pick = [&]() -> MagmaNode { return d[size_t(rt::choose(rt::OPS, d.size()))]; };
	const ref::Magma &m = e.mk.ref;
	for (int i = 0; i < n; i++) {
		rt::probe(rt::P_dag_nodes);
		int c = int(rt::choose(rt::OPS, 16));
		if (d.empty() && c > 6) c = c % 7;
		const uint64_t w = gen_word();
		MagmaNode x{nullptr, w, 1};
		switch (c) {
		case 0: x.b = made<magma::BlkRaw>(w); break;
		case 1: x.b = made<magma::BlkRaw>(uint32_t(w), uint32_t(w >> 32)); break;
		case 2: x.b = made<magma::BlkRaw>(std::make_pair(uint32_t(w), uint32_t(w >> 32))); break;
		case 3: {
			vector<uint8_t> b(8);
			memcpy(b.data(), &w, 8);
			if (rt::choose(rt::OPS, 2)) x.b = made<magma::BlkRaw>(b);
			else x.b = made<magma::BlkRaw>(static_cast<const void *>(b.data()));
			break;
		}
		case 4: {
			const int digits = int(rt::choose(rt::OPS, 17));
			x.v = digits == 16 ? w : w & ((1ull << (4 * digits)) - 1);
			x.b = made<magma::BlkString>(hex_text(0, x.v, digits, digits & 1));
			break;
		}
		case 5: x.b = make_shared<SimMagmaBlock>(w); break;
		case 6: x.v = 0; x.b = made<magma::BlkRaw>(); break;
		case 7: { auto a = pick(); x.v = a.v; x.b = made<magma::BlkRaw>(a.b); break; }
		case 8: {
			auto a = pick();
			x = {made<magma::BlkSwapped>(a.b), (a.v >> 32) | (a.v << 32), a.cost + 1};
			break;
		}
		case 9: {
			auto a = pick();
			const int s = 1 + int(rt::choose(rt::OPS, 31));
			x = {made<magma::BlkShifted>(a.b, s), a.v << s, a.cost + 1};
			break;
		}
		case 10: {
			auto a = pick(), b = pick(), c2 = pick(), d2 = pick();
			switch (rt::choose(rt::OPS, 3)) {
			case 0: x = {made<magma::BlkXored>(a.b, b.b), a.v ^ b.v, a.cost + b.cost + 1}; break;
			case 1: x = {made<magma::BlkXored>(a.b, b.b, c2.b), a.v ^ b.v ^ c2.v, a.cost + b.cost + c2.cost}; break;
			default: x = {made<magma::BlkXored>(a.b, b.b, c2.b, d2.b), a.v ^ b.v ^ c2.v ^ d2.v,
				a.cost + b.cost + c2.cost + d2.cost};
			}
			break;
		}
		case 11: { auto a = pick(); x = {made<magma::BlkForwarded>(a.b, e.mk.key), fwd(m, a.v), a.cost + 10}; break; }
		case 12: { auto a = pick(); x = {made<magma::BlkBackwarded>(a.b, e.mk.key), bwd(m, a.v), a.cost + 10}; break; }
		case 13: { auto a = pick(); x = {made<magma::BlkEncrypted>(a.b, e.mk.key), m.enc(a.v), a.cost + 40}; break; }
		case 14: { auto a = pick(); x = {made<magma::BlkDecrypted>(a.b, e.mk.key), m.dec(a.v), a.cost + 40}; break; }
		default: {
			const Bytes b = gen_bytes(rt::choose(rt::OPS, 30));
			x = {made<magma::Imit>(mem_source(b), e.mk.key), ref::magma_mac(m, u8(b), b.size()), 100};
		}
		}
		if (x.cost > 400) x = {made<magma::BlkRaw>(w), w, 1};
		d.push_back(x);
	}
	return d;
}

vector<KuzNode> gen_kuz_dag(const Env &e, int n)
{
	vector<KuzNode> d;
	const auto pick = [&]() -> KuzNode { return d[size_t(rt::choose(rt::OPS, d.size()))]; };
	const ref::Kuz &k = e.kp.ref;
	for (int i = 0; i < n; i++) {
		rt::probe(rt::P_dag_nodes);
		int c = int(rt::choose(rt::OPS, 21));
		if (d.empty() && c > 6) c = c % 7;
		const ref::U128 w = {gen_word(), gen_word()};
		KuzNode x{nullptr, w, 1};
		switch (c) {
		case 0: x.b = made<kuz::BlkRaw>(w.lo, w.hi); break;
		case 1: x.b = made<kuz::BlkRaw>(std::make_pair(w.lo, w.hi)); break;
		case 2: x.b = made<kuz::BlkRaw>(static_cast<const void *>(&w)); break;
		case 3: x.v.hi = 0; x.b = made<kuz::BlkRaw>(w.lo); break;
		case 4: {
			const int digits = int(rt::choose(rt::OPS, 33));
			const int hd = digits > 16 ? digits - 16 : 0;
			x.v.lo = digits >= 16 ? w.lo : w.lo & ((1ull << (4 * digits)) - 1);
			x.v.hi = hd == 16 ? w.hi : w.hi & ((1ull << (4 * hd)) - 1);
			x.b = made<kuz::BlkString>(hex_text(x.v.hi, x.v.lo, digits, digits & 1));
			break;
		}
		case 5: x.b = make_shared<SimKuzBlock>(w); break;
		case 6: x.v = {0, 0}; x.b = made<kuz::BlkRaw>(); break;
		case 7: { auto a = pick(); x.v = a.v; x.b = made<kuz::BlkRaw>(a.b); break; }
		case 8: case 9: { auto a = pick(); x = {made<kuz::BlkCached>(a.b), a.v, 2}; break; }
		case 10: {
			auto a = pick();
			const int s = 1 + int(rt::choose(rt::OPS, 63));
			x = {made<kuz::BlkShifted>(a.b, s), ref::shl128(a.v, s), a.cost + 1};
			break;
		}
		case 11: { auto a = pick(); x = {made<kuz::BlkIncremented>(a.b), ref::inc128(a.v), a.cost + 1}; break; }
		case 12: {
			auto a = pick(), b = pick(), c2 = pick(), d2 = pick();
			const auto X = [](ref::U128 p, ref::U128 q) { return ref::U128{p.lo ^ q.lo, p.hi ^ q.hi}; };
			switch (rt::choose(rt::OPS, 3)) {
			case 0: x = {made<kuz::BlkXored>(a.b, b.b), X(a.v, b.v), a.cost + b.cost + 1}; break;
			case 1: x = {made<kuz::BlkXored>(a.b, b.b, c2.b), X(X(a.v, b.v), c2.v), a.cost + b.cost + c2.cost}; break;
			default: x = {made<kuz::BlkXored>(a.b, b.b, c2.b, d2.b), X(X(a.v, b.v), X(c2.v, d2.v)),
				a.cost + b.cost + c2.cost + d2.cost};
			}
			break;
		}
		case 13: { auto a = pick(); x = {made<kuz::BlkR>(a.b), ref::kuz_R(a.v), a.cost + 2}; break; }
		case 14: { auto a = pick(); x = {made<kuz::BlkS>(a.b), ref::kuz_S(a.v), a.cost + 1}; break; }
		case 15: { auto a = pick(); x = {made<kuz::BlkL>(a.b), ref::kuz_L(a.v), a.cost + 32}; break; }
		case 16: {
			auto a = pick(), b = pick();
			const int c1 = 1 + int(rt::choose(rt::OPS, 32)), cn = int(rt::choose(rt::OPS, 4));
			x = {made<kuz::BlkIterKey>(a.b, b.b, c1, c1 + cn - 1),
				ref::kuz_iter_key(a.v, b.v, c1, c1 + cn - 1), 8 * (a.cost + b.cost) + 100u * unsigned(cn)};
			break;
		}
		case 17: {
			auto a = pick();
			x = {shared_ptr<const kuz::Block>(e.kk->encrypt(a.b)), k.enc(a.v), a.cost + 300};
			break;
		}
		case 18: case 19: {
			// an iterator is a block as well
			const auto b = gen_blocks(1 + rt::choose(rt::OPS, 3));
			const uint64_t iv = gen_word();
			const size_t at = rt::choose(rt::OPS, b.size());
			auto it = c == 18 ? made<kuz::StMemory>(words(b, false))->iter() :
				kuz::StCTREncrypted(made<kuz::StMemory>(words(b, false)), e.kk, iv).iter();
			for (size_t j = 0; j < at; j++) it = it->next();
			x = {it, c == 18 ? b[at] : ref::kuz_ctr(k, iv, at, b[at]), c == 18 ? 1u : 300u};
			break;
		}
		default: { auto a = pick(); x = {made<kuz::BlkEncrypted>(a.b, e.kk), k.enc(a.v), a.cost + 300}; }
		}
		if (x.cost > 1200) x = {made<kuz::BlkRaw>(w.lo, w.hi), w, 1};
		d.push_back(x);
	}
	return d;
}

// How far into a stream a prepared handle is
static size_t gen_early() { return rt::chance(rt::OPS, 200) ? rt::choose(rt::OPS, 20) : 0; }

template <class Make, class Use>
static Job mk(const char *name, bool prebuilt, Make make, Use use, const Bytes &want)
{
	if (prebuilt) {
		auto o = make();
		return {name, [o, use] { return use(o); }, want};
	}
	return {name, [make, use] { return use(make()); }, want};
}

static Job job(const Env &e, int kind, bool pre, size_t size)
{
	const MagmaKey mk_ = e.mk;
	const auto key = mk_.key;
	const auto any = mk_.any;
	const size_t whole = size / 8 * 8;
	switch (kind) {
	case J_CFB_ENC: {
		const Cfb c = gen_cfb();
		const Bytes d = gen_bytes(size);
		const auto p = gen_pieces(size, 1);
		// the shared handle may be one in the middle of the stream
		const Bytes before = gen_bytes(gen_early());
		Bytes all = before;
		append(all, d);
		return mk(c.m == 1 ? "gost89::CFBSink" : "magma::CFBSink", pre,
			[c, any, before] {
				auto s = c.sink(make_shared<MemSink>(), any);
				return before.empty() ? s : s->write(before);
			},
			[d, p](const shared_ptr<const Sink> &s) { return run_sink(s, d, p); },
			c.enc(mk_.ref, all));
	}
	case J_CFB_DEC: {
		const Cfb c = gen_cfb();
		const Bytes d = gen_bytes(size);
		const auto p = gen_pieces(size, 1);
		const size_t skip = gen_early();
		Bytes all = gen_bytes(skip);
		append(all, d);
		return mk(c.m == 1 ? "gost89::CFBSource" : "magma::CFBSource", pre,
			[c, any, all, skip] {
				auto s = c.source(mem_source(all), any);
				for (size_t left = skip; left; ) {
					Bytes b;
					std::tie(b, s) = s->read(left);
					if (b.empty() || b.size() > left) rt::violation("early-end", "read(%zu) returned %zu bytes", left, b.size());
					left -= b.size();
				}
				return s;
			},
			[p](const shared_ptr<const Source> &s) { return run_source(s, p); },
			slice(c.dec(mk_.ref, all), skip, d.size()));
	}
	case J_ECB_ENC: {
		const Bytes d = gen_bytes(whole);
		const auto p = gen_pieces(whole, 8);
		const bool own = rt::choose(rt::OPS, 3) == 1;
		const auto m = mk_.ref;
		return mk("magma::ECBSink", pre,
			[any, own, m]() -> shared_ptr<const Sink> {
				if (own) return made<magma::ECBSink>(make_shared<MemSink>(), make_shared<SimKey>(m));
				return made<magma::ECBSink>(make_shared<MemSink>(), any);
			},
			[d, p](const shared_ptr<const Sink> &s) { return run_sink(s, d, p); },
			ecb_enc(mk_.ref, d));
	}
	case J_ECB_DEC: case J_ECB_DEC_CONTAINER: {
		const Bytes d = gen_bytes(whole);
		auto p = gen_pieces(whole, 8);
		for (auto &x : p) if (x < 8) x = 8;
		const auto box = kind == J_ECB_DEC_CONTAINER ? make_container(e.mp) : nullptr;
		return mk(box ? "magma::ECBSource(container)" : "magma::ECBSource", pre,
			[any, d, box]() -> shared_ptr<const Source> {
				if (box) return made<magma::ECBSource>(mem_source(d), box);
				return made<magma::ECBSource>(mem_source(d), any);
			},
			[p](const shared_ptr<const Source> &s) { return run_source(s, p); },
			ecb_dec(mk_.ref, d));
	}
	case J_MAGMA_MAC: {
		const Bytes d = gen_bytes(size);
		return mk("magma::Imit", pre,
			[key, d] { return made<magma::Imit>(mem_source(d), key); },
			[](const shared_ptr<magma::Imit> &i) { return to_bytes(u(i->value())); },
			to_bytes(ref::magma_mac(mk_.ref, u8(d), d.size())));
	}
	case J_GOST_MAC: {
		const Bytes d = gen_bytes(size);
		const vector<uint8_t> v(u8(d), u8(d) + d.size());
		return mk("gost89::DataImit", pre,
			[key, v] { return made<gost89::DataImit>(v, key); },
			[](const shared_ptr<gost89::DataImit> &i) {
				const auto r = i->value();
				Bytes b(r.size());
				memcpy(b.data(), r.data(), r.size());
				return b;
			},
			to_bytes(ref::gost89_mac(mk_.ref, u8(d), d.size())));
	}
	case J_MAGMA_BLOCK: {
		const uint64_t w = gen_word();
		Bytes want = to_bytes(mk_.ref.enc(w));
		append(want, to_bytes(mk_.ref.dec(w)));
		append(want, to_bytes(mk_.ref.enc(w)));
		append(want, to_bytes(mk_.ref.mac16(w)));
		struct B {
			shared_ptr<const magma::Block> e, d;
			shared_ptr<const magma::EncryptionBase> x;
			shared_ptr<const gost89::ImitedBlock> i;
		};
		return mk("magma blocks", pre,
			[key, w] {
				return B{made<magma::BlkEncrypted>(made<magma::BlkRaw>(w), key),
					made<magma::BlkDecrypted>(made<magma::BlkRaw>(w), key),
					made<magma::EncryptionBase>(key),
					made<gost89::ImitedBlock>(magma::BlkRaw(w), key)};
			},
			[w](const B &b) {
				Bytes r = to_bytes(u(b.e->value()));
				append(r, to_bytes(u(b.d->value())));
				append(r, to_bytes(b.x->transform(w)));
				append(r, to_bytes(u(b.i->value().value())));
				return r;
			}, want);
	}
	case J_MAGMA_DAG: {
		const auto d = gen_magma_dag(e, 3 + int(rt::choose(rt::OPS, 8)));
		const auto x = d.back();
		const auto b = x.b;
		return {"magma block graph", [b] { return to_bytes(u(b->value())); }, to_bytes(x.v)};
	}
	case J_MAGMA_KEY: {
		const uint64_t w = gen_word();
		const MagmaParams p = e.mp;
		return mk("magma::LazyKey", pre,
			[p] { return build(p).key; },
			[w](const shared_ptr<const magma::LazyKey> &k) {
				return to_bytes(u(magma::BlkEncrypted(made<magma::BlkRaw>(w), k).value()));
			}, to_bytes(p.ref.enc(w)));
	}
	case J_KUZ_BLOCK: {
		const ref::U128 w = {gen_word(), gen_word()};
		const auto k = e.kk;
		return mk("kuznyechik::BlkEncrypted", pre,
			[k, w] { return made<kuz::BlkEncrypted>(made<kuz::BlkRaw>(w.lo, w.hi), k); },
			[](const shared_ptr<kuz::BlkEncrypted> &b) { return to_bytes(u(b->value())); },
			to_bytes(e.kp.ref.enc(w)));
	}
	case J_KUZ_MAC: case J_KUZ_MAC_SIM: {
		auto b = gen_blocks(size / 16 + 1);
		const bool simulated = kind == J_KUZ_MAC_SIM;
		const size_t last = simulated ? 16 - rt::choose(rt::OPS, 16) : 16;
		b.back() = mask(b.back(), last);
		const auto k = e.kk;
		return mk(simulated ? "kuznyechik::Imit(stream)" : "kuznyechik::Imit(memory)", pre,
			[k, b, last, simulated] {
				shared_ptr<const kuz::Stream> s;
				if (simulated) s = make_shared<SimStream>(b, last);
				else s = made<kuz::StMemory>(words(b, false));
				return made<kuz::Imit>(s, k);
			},
			[](const shared_ptr<kuz::Imit> &i) { return to_bytes(u(i->value())); },
			to_bytes(ref::kuz_mac(e.kp.ref, b.data(), b.size(), last)));
	}
	case J_KUZ_CTR: case J_KUZ_CTR_SIM: {
		const auto b = gen_blocks(size / 16 + 1);
		const bool simulated = kind == J_KUZ_CTR_SIM;
		const size_t last = simulated ? 16 - rt::choose(rt::OPS, 16) : 16;
		const uint64_t iv = gen_word();
		const auto k = e.kk;
		vector<ref::U128> c;
		for (size_t i = 0; i < b.size(); i++) c.push_back(ref::kuz_ctr(e.kp.ref, iv, i, b[i]));
		const size_t n = b.size();
		const auto make = [k, b, last, simulated, iv] {
			shared_ptr<const kuz::Stream> s;
			if (simulated) s = make_shared<SimStream>(b, last);
			else s = made<kuz::StMemory>(words(b, false));
			return made<kuz::StCTREncrypted>(s, k, iv);
		};
		if (rt::choose(rt::OPS, 2)) {
			// the shared object is an iterator, at the start or further on
			const size_t at = rt::choose(rt::OPS, n);
			const vector<ref::U128> rest(c.begin() + at, c.end());
			return mk(simulated ? "kuznyechik::StCTREncrypted(stream) iterator" : "kuznyechik::StCTREncrypted(memory) iterator", pre,
				[make, at] {
					auto i = make()->iter();
					for (size_t j = 0; j < at; j++) i = i->next();
					return i;
				},
				[n](const shared_ptr<const kuz::Iterator> &i) { return walk(i, n + 1); },
				walked(rest, last));
		}
		return mk(simulated ? "kuznyechik::StCTREncrypted(stream)" : "kuznyechik::StCTREncrypted(memory)", pre, make,
			[n](const shared_ptr<kuz::StCTREncrypted> &s) { return walk(s->iter(), n + 1); },
			walked(c, last));
	}
	case J_KUZ_MAC_CTR: {
		const auto b = gen_blocks(size / 16 + 1);
		const uint64_t iv = gen_word();
		const auto k = e.kk;
		vector<ref::U128> c;
		for (size_t i = 0; i < b.size(); i++) c.push_back(ref::kuz_ctr(e.kp.ref, iv, i, b[i]));
		return mk("kuznyechik::Imit(StCTREncrypted)", pre,
			[k, b, iv] {
				return made<kuz::Imit>(
					made<kuz::StCTREncrypted>(made<kuz::StMemory>(words(b, false)), k, iv), k);
			},
			[](const shared_ptr<kuz::Imit> &i) { return to_bytes(u(i->value())); },
			to_bytes(ref::kuz_mac(e.kp.ref, c.data(), c.size(), 16)));
	}
	case J_KUZ_DAG: {
		const auto d = gen_kuz_dag(e, 3 + int(rt::choose(rt::OPS, 8)));
		const auto x = d.back();
		const auto b = x.b;
		return {"kuznyechik block graph", [b] { return to_bytes(u(b->value())); }, to_bytes(x.v)};
	}
	default: {
		const ref::U128 w = {gen_word(), gen_word()};
		const KuzParams p = e.kp;
		return mk("kuznyechik::Key", pre,
			[p] { return build(p); },
			[w](const shared_ptr<const kuz::Key> &k) {
				return to_bytes(u(k->encrypt(made<kuz::BlkRaw>(w.lo, w.hi))->value()));
			}, to_bytes(p.ref.enc(w)));
	}
	}
}

Job make_job(const Env &e, int kind, bool prebuilt, size_t max_size)
{
	return job(e, kind, prebuilt, gen_size(max_size));
}
Job make_sized_job(const Env &e, int kind, bool prebuilt, size_t size)
{
	return job(e, kind, prebuilt, size);
}
void check_job(const Job &j, const Bytes &got)
{
	rt::Quiet q;
	expect(got, j.want, "wrong-result", j.name.c_str());
}

}  // namespace sim
