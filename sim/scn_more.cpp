// Scenarios about what everything costs, and about objects that have nothing
// to do with each other.
#include "jobs.h"
#include "scn.h"

namespace sim {

// ---------------------------------------------------------------------------
// C24: streaming costs the same for every block, in memory and in work.
namespace {

enum Cost { K_SINK, K_SOURCE, K_ECB_SINK, K_ECB_SOURCE, K_MAC, K_MAC_DEC, K_KUZ_MAC, K_KUZ_MAC_CTR, K_CTR, K_CTR2, K_STMEM,
	K_SINK_ONE, K_SOURCE_ONE, K_ECB_SINK_ONE, K_GOST_MAC, K_AGAIN, K_COUNT };
const char *const cost_name[] = {"CFB writes", "CFB reads", "ECB writes", "ECB reads", "magma::Imit",
	"magma::Imit over a decrypting source", "kuznyechik::Imit", "kuznyechik::Imit over StCTREncrypted", "a walk of StCTREncrypted",
	"a walk of nested StCTREncrypted", "a walk of StMemory", "one CFB write", "one CFB read", "one ECB write", "gost89::DataImit",
	"many uses of one handle"};

// Checks what it is given against the expected bytes and keeps nothing.
class CheckSink final : public Sink {
public:
	CheckSink(const Bytes *want, size_t *at) : want(want), at(at) {}
	shared_ptr<const Sink> write(const Bytes &data) const override
	{
		rt::Seam s;
		{
			rt::Quiet q;
			if (*at + data.size() > want->size() || (!data.empty() && memcmp(&(*want)[*at], &data[0], data.size())))
				rt::violation("wrong-ciphertext", "%zu bytes passed on at offset %zu are wrong", data.size(), *at);
			*at += data.size();
		}
		return make_shared<CheckSink>(want, at);
	}
	shared_ptr<const Sink> finalize() const override { return make_shared<CheckSink>(want, at); }
private:
	const Bytes *const want;
	size_t *const at;
};

struct Costing {
	int kind;
	size_t piece;            // bytes per call
	bool eval;               // look at every block of a walk
	Cfb c, c2;
	MagmaKey k;
	KuzParams kp;
	shared_ptr<const kuz::Key> kk;
};
struct Spent { uint64_t work, peak, last; };

Spent spend(const Costing &o, size_t blocks)
{
	const bool is_kuz = o.kind == K_KUZ_MAC || o.kind == K_KUZ_MAC_CTR || o.kind == K_CTR || o.kind == K_CTR2 || o.kind == K_STMEM;
	const Bytes data = gen_bytes(blocks * (is_kuz ? 16 : 8));
	const size_t n = data.size();
	Bytes want, got;
	Spent r = {0, 0, 0};
	vector<ref::U128> b;
	shared_ptr<const kuz::Stream> st;
	{
		rt::Quiet q;
		switch (o.kind) {
		case K_SINK: case K_SINK_ONE: want = o.c.enc(o.k.ref, data); break;
		case K_SOURCE: case K_SOURCE_ONE: want = o.c.dec(o.k.ref, data); break;
		case K_ECB_SINK: case K_ECB_SINK_ONE: want = ecb_enc(o.k.ref, data); break;
		case K_ECB_SOURCE: want = ecb_dec(o.k.ref, data); break;
		case K_MAC: want = to_bytes(ref::magma_mac(o.k.ref, u8(data), n)); break;
		case K_MAC_DEC: {
			const Bytes p = o.c.dec(o.k.ref, data);
			want = to_bytes(ref::magma_mac(o.k.ref, u8(p), n));
			break;
		}
		case K_GOST_MAC: want = to_bytes(ref::gost89_mac(o.k.ref, u8(data), n)); break;
		case K_AGAIN: want = o.c.enc(o.k.ref, slice(data, 0, 8)); break;
		default: break;
		}
		got.reserve(n + 64);
		if (is_kuz) {
			b.resize(blocks);
			memcpy(&b[0], data.data(), n);
		}
	}
	if (is_kuz) {
		rt::Lib l;
		if (o.kind == K_STMEM || o.piece % 2) st = made<kuz::StMemory>(words(b, false));
		else st = make_shared<SimStream>(b, 16);
		if (o.kind == K_CTR || o.kind == K_CTR2 || o.kind == K_KUZ_MAC_CTR) st = made<kuz::StCTREncrypted>(st, o.kk, o.c.iv[0]);
		if (o.kind == K_CTR2) st = made<kuz::StCTREncrypted>(st, o.kk, o.c.iv[1]);
	}
	size_t at = 0;
	const auto bytes_in = mem_source(data);
	const auto check = make_shared<CheckSink>(&want, &at);
	const uint64_t live = rt::live_bytes();
	rt::peak_reset();
	const uint64_t work = rt::work();
	{
		rt::Lib l;
		switch (o.kind) {
		case K_SINK: case K_ECB_SINK: {
			const size_t piece = o.kind == K_SINK ? o.piece : (o.piece + 7) / 8 * 8;
			shared_ptr<const Sink> s;
			if (o.kind == K_SINK) s = o.c.sink(check, o.k.any);
			else s = made<magma::ECBSink>(check, o.k.any);
			for (size_t i = 0; i < n; i += piece) s = s->write(slice(data, i, std::min(piece, n - i)));
			s->finalize();
			break;
		}
		case K_SINK_ONE: o.c.sink(check, o.k.any)->write(data)->finalize(); break;
		case K_ECB_SINK_ONE: magma::ECBSink(check, o.k.any).write(data)->finalize(); break;
		case K_SOURCE_ONE: got = o.c.source(bytes_in, o.k.any)->read(n).first; break;
		case K_SOURCE: case K_ECB_SOURCE: {
			const size_t piece = o.kind == K_SOURCE ? o.piece : o.piece + 8;
			shared_ptr<const Source> s;
			if (o.kind == K_SOURCE) s = o.c.source(bytes_in, o.k.any);
			else s = made<magma::ECBSource>(bytes_in, o.k.any);
			for (;;) {
				const auto p = s->read(piece);
				if (p.first.empty()) break;
				append(got, p.first);
				s = p.second;
			}
			break;
		}
		case K_MAC: got = to_bytes(u(magma::Imit(bytes_in, o.k.key).value())); break;
		case K_MAC_DEC: got = to_bytes(u(magma::Imit(o.c.source(bytes_in, o.k.any), o.k.key).value())); break;
		case K_GOST_MAC: {
			const auto v = gost89::DataImit(vector<uint8_t>(u8(data), u8(data) + n), o.k.key).value();
			got.resize(v.size());
			memcpy(got.data(), v.data(), v.size());
			break;
		}
		case K_KUZ_MAC: case K_KUZ_MAC_CTR: got = to_bytes(u(kuz::Imit(st, o.kk).value())); break;
		case K_AGAIN: {
			// the same handle, block, iterator and MAC asked again and again
			size_t off = 0;
			const Bytes first = slice(data, 0, 8);
			const auto s = o.c.sink(make_shared<CheckSink>(&want, &off), o.k.any);
			const auto src = o.c.source(mem_source(first), o.k.any);
			const auto mac = made<magma::Imit>(mem_source(first), o.k.key);
			const auto blk = made<magma::BlkEncrypted>(made<magma::BlkRaw>(o.c.iv[0]), o.k.key);
			for (size_t i = 0; i < blocks; i++) {
				off = 0;
				s->write(first)->finalize();
				src->read(o.piece);
				blk->value();
				if (i % 4 == 0) mac->value();
			}
			break;
		}
		default: {
			auto it = st->iter();
			for (size_t i = 0; i + 1 < blocks; i++) {
				if (o.eval) it->value();
				if (o.piece % 3 == 0 && (it->last() || it->size() != 16))
					rt::violation("wrong-result", "%s: wrong last() or size() at block %zu of %zu", cost_name[o.kind], i, blocks);
				it = it->next();
			}
			const uint64_t before = rt::work();
			const ref::U128 v = u(it->value());
			r.last = rt::work() - before;
			append(got, to_bytes(v));
		}
		}
	}
	r.work = rt::work() - work;
	r.peak = rt::peak_bytes() - live;
	rt::Quiet q;
	switch (o.kind) {
	case K_SINK: case K_SINK_ONE: case K_ECB_SINK: case K_ECB_SINK_ONE:
		if (at != want.size()) rt::violation("wrong-ciphertext", "%s: %zu bytes passed on instead of %zu", cost_name[o.kind], at, want.size());
		return r;
	case K_AGAIN: return r;
	case K_KUZ_MAC: want = to_bytes(ref::kuz_mac(o.kp.ref, b.data(), b.size(), 16)); break;
	case K_KUZ_MAC_CTR:
		for (size_t i = 0; i < blocks; i++) b[i] = ref::kuz_ctr(o.kp.ref, o.c.iv[0], i, b[i]);
		want = to_bytes(ref::kuz_mac(o.kp.ref, b.data(), b.size(), 16));
		break;
	case K_STMEM: want = to_bytes(b.back()); break;
	case K_CTR2: b.back() = ref::kuz_ctr(o.kp.ref, o.c.iv[1], blocks - 1, b.back());   // and the outer layer
		[[fallthrough]];
	case K_CTR: want = to_bytes(ref::kuz_ctr(o.kp.ref, o.c.iv[0], blocks - 1, b.back())); break;
	default: break;
	}
	expect(got, want, "wrong-result", cost_name[o.kind]);
	return r;
}
}  // namespace

void c24_cost()
{
	Costing o;
	o.kind = int(rt::choose(rt::OPS, K_COUNT));
	o.piece = 1 + rt::choose(rt::OPS, 40);
	o.eval = rt::choose(rt::OPS, 2);
	o.c = gen_cfb();
	const bool is_kuz = o.kind == K_KUZ_MAC || o.kind == K_KUZ_MAC_CTR || o.kind == K_CTR || o.kind == K_CTR2 || o.kind == K_STMEM;
	if (is_kuz) {
		o.kp = gen_kuz();
		o.kk = build(o.kp);
	} else {
		o.k = gen_magma_key();
	}
	const bool far = rt::chance(rt::OPS, 30);
	const bool walk = o.kind == K_CTR || o.kind == K_CTR2 || o.kind == K_STMEM;
	const size_t base = 8;
	const size_t many = walk && (!o.eval || o.kind == K_STMEM) ? 100 + rt::choose(rt::OPS, far ? 8000 : 400)
		: is_kuz ? 32 + rt::choose(rt::OPS, far ? 150 : 20) : 64 + rt::choose(rt::OPS, far ? 4000 : 300);
	// the first pass warms caches and one-time initialisation
	const size_t sizes[4] = {base, base, many, 3 * many};
	Spent s[4];
	for (int i = 0; i < 4; i++) {
		s[i] = spend(o, sizes[i]);
		rt::event(81, uint64_t(o.kind), sizes[i]);
		rt::log("%s: %zu blocks cost %llu, at most %llu bytes, the last one %llu", cost_name[o.kind], sizes[i],
			(unsigned long long)s[i].work, (unsigned long long)s[i].peak, (unsigned long long)s[i].last);
	}
	rt::probe(rt::P_long_measured);
	// Memory: constant where data passes through; in proportion where one call
	// is given, or asked for, all of it.
	const bool whole = o.kind == K_SINK_ONE || o.kind == K_SOURCE_ONE || o.kind == K_ECB_SINK_ONE || o.kind == K_GOST_MAC;
	const auto grow = [&](uint64_t Spent::*f, int a, int b) { return s[b].*f > s[a].*f ? double(s[b].*f - s[a].*f) : 0.0; };
	const double per1 = grow(&Spent::peak, 1, 2) / double(many - base), per2 = grow(&Spent::peak, 2, 3) / double(2 * many);
	if (whole ? per2 > 2 * per1 + 64 && per2 > 100 : s[2].peak > s[1].peak + 2048 && per2 > per1 / 2)
		rt::violation("memory-grows", "%s: %llu bytes for %zu blocks, %llu for %zu, %llu for %zu", cost_name[o.kind],
			(unsigned long long)s[1].peak, base, (unsigned long long)s[2].peak, many, (unsigned long long)s[3].peak, 3 * many);
	const double w1 = grow(&Spent::work, 1, 2) / double(many - base), w2 = grow(&Spent::work, 2, 3) / double(2 * many);
	if (w2 > 1.5 * w1 + 8)
		rt::violation("work-grows", "%s: %.0f steps per block up to %zu blocks, %.0f up to %zu", cost_name[o.kind], w1, many, w2, 3 * many);
	const double l1 = grow(&Spent::last, 1, 2), l2 = grow(&Spent::last, 1, 3);
	if (l2 > 100 && l2 > double(s[1].last) / 20 && l2 > 2 * l1)
		rt::violation("work-grows", "%s: one block costs %llu steps at block %zu, %llu at %zu, %llu at %zu", cost_name[o.kind],
			(unsigned long long)s[1].last, base, (unsigned long long)s[2].last, many, (unsigned long long)s[3].last, 3 * many);
}

// ---------------------------------------------------------------------------
// C25: objects that share nothing never influence each other.
namespace {

enum Kind { I_SINK, I_SOURCE, I_ECB_SINK, I_ECB_SOURCE, I_JOB, I_WALK, I_KINDS };

// What several sessions are likely to have in common.
struct Pool { uint64_t iv[2]; uint64_t block[3]; };
Bytes pool_bytes(const Pool &p, size_t n)
{
	rt::Quiet q;
	Bytes b;
	while (b.size() < n) append(b, to_bytes(p.block[rt::choose(rt::DATA, 3)]));
	b.resize(n);
	return b;
}

struct Session {
	bool busy = false, open = false;
	int tag = 0;
	int kind = 0, job_kind = 0;
	bool box = false;           // key and table come in a container
	Env e;
	Cfb c;
	Bytes data, want, got;
	size_t off = 0;
	shared_ptr<const Sink> sink;
	shared_ptr<const Source> source;
	Job job;
	shared_ptr<const kuz::Iterator> it;
	vector<ref::U128> blocks;
	uint64_t iv = 0;
	size_t uses = 0;
};
struct Party {
	vector<Session *> s;
	Pool pool;
	int ops = 0;
	int depth = 0;
	bool kuz = false;
	bool faults = false;
	uint64_t progress = 0;      // operations done
	bool finished = false;
};
Party *party[8];
struct Tag {
	const int before;
	explicit Tag(int t) : before(tag[rt::self()]) { tag[rt::self()] = t; }
	~Tag() { tag[rt::self()] = before; }
};
bool releasing;                 // C26: what a session gives up must be gone
bool may_wait, waiting;         // at most one task waits for another

void open_session(Party &p, Session &x)
{
	x = Session();
	x.busy = true;
	x.tag = new_tag();
	const Tag tag(x.tag);
	x.kind = int(rt::choose(rt::OPS, p.kuz ? I_KINDS : I_WALK));
	// often the same kind of work as somebody else
	const Session *model = nullptr;
	for (Session *const o : p.s) if (o != &x && o->open && rt::choose(rt::OPS, 2)) model = o;
	if (model) x.kind = model->kind;
	x.box = x.kind == I_ECB_SOURCE && rt::choose(rt::OPS, 3) == 0;
	x.c = gen_cfb();
	for (int i = 0; i < 2; i++) if (rt::choose(rt::OPS, 4)) x.c.iv[i] = p.pool.iv[rt::choose(rt::OPS, 2)];
	const bool same_job = model && x.kind == I_JOB;
	const bool kz = x.kind == I_WALK || (x.kind == I_JOB && p.kuz && (same_job ? model->job_kind >= J_KUZ_FIRST : rt::choose(rt::OPS, 2) != 0));
	const Session *like = nullptr;
	for (Session *const o : p.s) if (o != &x && o->open && o->e.has_kuz == kz && rt::choose(rt::OPS, 3)) like = o;
	x.e.mp = like ? similar(like->e.mp) : gen_magma();
	x.e.has_kuz = kz;
	if (kz) x.e.kp = like ? similar(like->e.kp) : gen_kuz();
	if (like && !cfg.reenter && !releasing && rt::choose(rt::OPS, 6) == 5) {
		x.e = like->e;      // the same key object, everything else apart
	} else {
		x.e.mk = build(x.e.mp);
		if (kz) x.e.kk = build(x.e.kp);
	}
	if (x.kind == I_JOB) {
		const int first = kz ? int(J_KUZ_FIRST) : int(J_MAGMA_MAC), last = kz ? int(J_COUNT) : int(J_KUZ_FIRST);
		x.job_kind = same_job ? model->job_kind : first + int(rt::choose(rt::OPS, uint64_t(last - first)));
		x.job = make_job(x.e, x.job_kind, rt::choose(rt::OPS, 2), kz ? 48 : 60);
	}
	const ref::Magma &m = x.e.mk.ref;
	const size_t len = 1 + rt::choose(rt::OPS, 60);
	switch (x.kind) {
	case I_SINK:
		x.data = pool_bytes(p.pool, len);
		x.want = x.c.enc(m, x.data);
		break;
	case I_SOURCE:
		x.data = pool_bytes(p.pool, len);
		x.want = x.c.dec(m, x.data);
		break;
	case I_ECB_SINK:
		x.data = pool_bytes(p.pool, (len + 7) / 8 * 8);
		x.want = ecb_enc(m, x.data);
		break;
	case I_ECB_SOURCE:
		x.data = pool_bytes(p.pool, (len + 7) / 8 * 8);
		x.want = ecb_dec(m, x.data);
		break;
	case I_WALK: {
		const Bytes b = pool_bytes(p.pool, 16 * (1 + rt::choose(rt::OPS, 4)));
		x.blocks.resize(b.size() / 16);
		memcpy(&x.blocks[0], b.data(), b.size());
		x.iv = p.pool.iv[rt::choose(rt::OPS, 2)];
		break;
	}
	default: break;
	}
	x.open = true;
}
void close_session(Session &x)
{
	const int t = x.tag;
	Session dead = std::move(x);
	x = Session();
	{ const Session gone = std::move(dead); }
	if (!releasing) return;
	rt::Quiet q;
	rt::event(83, uint64_t(live_with(t)));
	if (live_with(t))
		rt::violation("not-released", "%d objects given to a session are still alive although nothing of the session is held any more", live_with(t));
	rt::probe(rt::P_released);
}

// One operation of one session. Faults may end it; it is then tried again on
// the same handle, or the session is given up.
void step_session(Party &p, Session &x)
{
	x.busy = true;
	if (!x.open) {
		const Outcome o = attempt([&] { open_session(p, x); });
		if (o.r != OK) {
			if (o.r == REFUSED || o.r == CRASHED || !p.faults) rt::violation("wrong-error", "opening a session ended with %s", name(o.r));
			close_session(x);
			return;
		}
	}
	const Tag tag(x.tag);
	Bytes got;
	bool done = false;
	const size_t unit = x.kind == I_ECB_SINK || x.kind == I_ECB_SOURCE ? 8 : 1;
	const size_t len = unit * (1 + rt::choose(rt::OPS, unit == 8 ? 3 : 20));
	shared_ptr<const Sink> sink;
	shared_ptr<const Source> source;
	shared_ptr<const kuz::Iterator> it;
	ref::U128 v = {0, 0};
	bool last = false;
	if (p.faults && rt::chance(rt::FAULT, 60)) rt::alloc_arm(1 + rt::choose(rt::FAULT, 40), false);
	const Outcome o = attempt([&] {
		switch (x.kind) {
		case I_SINK: case I_ECB_SINK: {
			sink = x.sink;
			if (!sink && unit == 8) sink = made<magma::ECBSink>(make_shared<MemSink>(), x.e.mk.any);
			else if (!sink) sink = x.c.sink(make_shared<MemSink>(), x.e.mk.any);
			if (x.off < x.data.size()) {
				const Bytes b = slice(x.data, x.off, std::min(len, x.data.size() - x.off));
				sink = sink->write(b);
			} else {
				sink = sink->finalize();
			}
			break;
		}
		case I_SOURCE: case I_ECB_SOURCE:
			source = x.source;
			if (!source && x.box) source = made<magma::ECBSource>(mem_source(x.data), make_container(x.e.mp));
			else if (!source && unit == 8) source = made<magma::ECBSource>(mem_source(x.data), x.e.mk.any);
			else if (!source) source = x.c.source(mem_source(x.data), x.e.mk.any);
			std::tie(got, source) = source->read(len);
			break;
		case I_WALK:
			it = x.it;
			if (!it) {
				shared_ptr<const kuz::Stream> st;
				if (x.iv & 1) st = make_shared<SimStream>(x.blocks, 16);
				else st = made<kuz::StMemory>(words(x.blocks, false));
				it = kuz::StCTREncrypted(st, x.e.kk, x.iv).iter();
			} else {
				it = it->next();
			}
			v = u(it->value());
			last = it->last();
			break;
		default:
			got = x.job.run();
		}
	});
	rt::alloc_arm(0, false);
	rt::Quiet q;
	rt::event(82, uint64_t(x.kind), uint64_t(o.r));
	if (o.r != OK) {
		if (o.r == REFUSED || o.r == CRASHED || !p.faults) rt::violation("wrong-error", "an operation of kind %d ended with %s", x.kind, name(o.r));
		const bool abandon = rt::choose(rt::OPS, 3) == 1;
		x.busy = abandon;
		if (abandon) {
			rt::probe(rt::P_session_abandoned);
			rt::ignore_end();
			sink.reset();
			source.reset();
			it.reset();
			close_session(x);
			rt::ignore_begin();
		}
		return;
	}
	x.uses++;
	switch (x.kind) {
	case I_SINK: case I_ECB_SINK:
		if (!sink) rt::violation("null-handle", "no successor");
		if (x.off >= x.data.size()) {
			expect(content_of(sink), x.want, "wrong-ciphertext", "a session's ciphertext");
			done = true;
		} else {
			x.off += std::min(len, x.data.size() - x.off);
			x.sink = sink;
		}
		break;
	case I_SOURCE: case I_ECB_SOURCE:
		if (!source) rt::violation("null-handle", "no successor");
		append(x.got, got);
		expect_prefix(x.got, x.want, "wrong-plaintext", "a session's plaintext");
		x.source = source;
		if (got.empty()) {
			expect(x.got, x.want, "wrong-plaintext", "a session's plaintext");
			done = true;
		}
		break;
	case I_WALK: {
		const ref::U128 w = ref::kuz_ctr(x.e.kp.ref, x.iv, x.off, x.blocks[x.off]);
		if (v.hi != w.hi || v.lo != w.lo || last != (x.off + 1 == x.blocks.size()))
			rt::violation("wrong-block", "block %zu of %zu of a session's CTR stream is %016llx%016llx instead of %016llx%016llx", x.off, x.blocks.size(),
				(unsigned long long)v.hi, (unsigned long long)v.lo, (unsigned long long)w.hi, (unsigned long long)w.lo);
		x.it = it;
		x.off++;
		done = last;
		break;
	}
	default:
		check_job(x.job, got);
		done = x.uses >= 2;
	}
	x.busy = done;
	if (done) {
		rt::ignore_end();
		sink.reset();
		source.reset();
		it.reset();
		close_session(x);
		rt::ignore_begin();
	}
}

void run_some(Party &p)
{
	Session *x;
	{
		rt::Quiet q;
		x = p.s[size_t(rt::choose(rt::OPS, p.s.size()))];
		p.ops--;
		if (x->busy) return;
	}
	step_session(p, *x);
	rt::Quiet q;
	p.progress++;
	rt::notify(&p);
}

// From inside a call-back of the environment: somebody else's work is done first.
void reenter()
{
	Party *p;
	{
		rt::Quiet q;
		p = party[rt::self()];
		// Nothing of ours is of any use to the others, so they have to get on
		// with their work while we are kept waiting here.
		if (p && may_wait && !waiting && rt::chance(rt::FAULT, 8)) {
			for (Party *const o : party) {
				if (!o || o == p || o->finished) continue;
				rt::fired(rt::F_stall);
				waiting = true;
				const uint64_t seen = o->progress;
				while (o->progress == seen && !o->finished) rt::wait_on(o);
				waiting = false;
				break;
			}
		}
		if (!p || p->depth >= 2 || p->ops <= 0 || !rt::chance(rt::OPS, 25)) return;
		rt::probe(rt::P_reentered);
		p->depth++;
	}
	run_some(*p);
	rt::Quiet q;
	p->depth--;
}

// The end of an object of the user's is a call-back too.
void destroyed()
{
	Party *p;
	{
		rt::Quiet q;
		p = party[rt::self()];
		if (!p || p->depth >= 2 || p->ops <= 0 || !rt::chance(rt::OPS, 60)) return;
		rt::probe(rt::P_worked_in_destructor);
		p->depth++;
	}
	run_some(*p);
	rt::Quiet q;
	p->depth--;
}

void party_task(void *, int id)
{
	Party &p = *party[id];
	while (p.ops > 0) run_some(p);
	for (Session *const s : p.s) if (!s->busy) close_session(*s);
	rt::Quiet q;
	p.finished = true;
	rt::notify(&p);
}
}  // namespace

static void sessions()
{
	const bool tasks = rt::chance(rt::OPS, 300);
	if (tasks) rt::sched_config();
	const int n = tasks ? 2 + int(rt::choose(rt::OPS, 2)) : 1;
	const bool faults = rt::chance(rt::OPS, 400);
	const bool kuz = rt::chance(rt::OPS, 250);
	if (faults) {
		cfg.read_error = cfg.write_error = 20u * unsigned(rt::choose(rt::OPS, 4));
		cfg.key_error = cfg.sbox_error = 2u * unsigned(rt::choose(rt::OPS, 4));
		cfg.stream_error = cfg.block_error = 20u * unsigned(rt::choose(rt::OPS, 4));
	}
	cfg.short_read = 150u * unsigned(rt::choose(rt::OPS, 3));
	Pool pool;
	for (auto &v : pool.iv) v = gen_word();
	if (rt::choose(rt::OPS, 2)) pool.iv[1] = pool.iv[0] ^ 1;
	for (auto &v : pool.block) v = gen_word();
	if (rt::choose(rt::OPS, 2)) pool.block[0] = pool.iv[0];
	for (int t = 0; t < n; t++) {
		Party *const p = new Party;
		p->pool = pool;
		p->kuz = kuz;
		p->faults = faults;
		p->ops = (tasks ? 4 : 8) + int(rt::choose(rt::OPS, tasks ? 8 : 30));
		const size_t k = 2 + rt::choose(rt::OPS, 3);
		for (size_t i = 0; i < k; i++) p->s.push_back(new Session);
		party[tasks ? t + 1 : 0] = p;
	}
	may_wait = tasks;
	waiting = false;
	if (rt::choose(rt::OPS, 2)) cfg.reenter = reenter;
	if (rt::choose(rt::OPS, 3) == 1) cfg.destroyed = destroyed;
	if (tasks) rt::parallel(n, party_task, nullptr);
	else party_task(nullptr, 0);
	cfg.reenter = cfg.destroyed = nullptr;
	for (auto &p : party) {
		if (!p) continue;
		for (Session *const s : p->s) delete s;
		delete p;
		p = nullptr;
	}
}

void c25_independence() { releasing = false; sessions(); }

// C26: what a user handed in is destroyed when the last of its session is gone.
void c26_release() { releasing = true; sessions(); }

}  // namespace sim
