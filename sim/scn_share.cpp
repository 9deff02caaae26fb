// Scenarios about faults, sharing between tasks, caches, memory and lifetimes.
#include "jobs.h"
#include "scn.h"

namespace sim {

static void expect_error(const Outcome &o, uint32_t before, const char *what)
{
	const uint32_t last = cfg.last_error[rt::self()];
	if (o.r == OK) {
		if (last != before)
			rt::violation("error-swallowed", "%s returned normally although the environment failed (error #%u)", what, last);
		return;
	}
	if (o.r != SIM_ERROR)
		rt::violation("wrong-error", "%s ended with %s", what, name(o.r));
	if (o.id != last)
		rt::violation("wrong-error", "%s ended with error #%u instead of #%u", what, o.id, last);
}

// Runs op until it succeeds; the environment may fail a bounded number of times.
template <class F> static void with_retries(F op, const char *what)
{
	int limit = 4;
	if (rt::chance(rt::OPS, 4)) {
		// nothing works for a long time
		static const int limits[] = {10, 20, 70, 130, 300, 1100};
		limit = limits[rt::choose(rt::OPS, 6)];
		cfg.storm = 1000;
		rt::probe(rt::P_error_storm);
	}
	for (int i = 0; ; i++) {
		cfg.armed = i < limit;
		const uint32_t before = cfg.last_error[rt::self()];
		const Outcome o = attempt(op);
		expect_error(o, before, what);
		if (o.r == OK) {
			if (i) rt::probe(rt::P_retry_after_fault);
			break;
		}
		if (i > limit + 1) rt::violation("no-recovery", "%s still fails after the faults stopped", what);
	}
	cfg.armed = true;
	cfg.storm = 1;
}

// C05: an error of the environment is reported, changes nothing, and can be retried.
void c05_fault_atomicity()
{
	const int n = 1 + int(rt::choose(rt::OPS, 3));
	for (int i = 0; i < n; i++) {
		const unsigned rate = 10u << rt::choose(rt::OPS, 5);
		switch (rt::choose(rt::OPS, 6)) {
		case 0: cfg.read_error = rate; break;
		case 1: cfg.write_error = rate; break;
		case 2: cfg.key_error = rate / 8; break;
		case 3: cfg.sbox_error = rate / 8; break;
		case 4: cfg.block_error = rate; break;
		default: cfg.stream_error = rate; break;
		}
	}
	cfg.short_read = 200 * unsigned(rt::choose(rt::OPS, 4));
	const bool with_kuz = rt::chance(rt::OPS, 300);
	cfg.armed = false;
	const Env e = gen_env(with_kuz);
	cfg.armed = true;
	const int what = int(rt::choose(rt::OPS, with_kuz ? 6 : 4));
	switch (what) {
	case 0: case 1: {
		// writing: fail, retry the very same handle, continue
		const bool ecb = rt::chance(rt::OPS, 300);
		const Cfb c = gen_cfb();
		const size_t unit = ecb ? 8 : 1;
		const Bytes plain = gen_bytes(gen_size(400) / unit * unit);
		shared_ptr<const Sink> s;
		if (!ecb) s = c.sink(make_shared<MemSink>(), e.mk.any);
		else if (rt::choose(rt::OPS, 3) == 1) s = made<magma::ECBSink>(make_shared<MemSink>(), make_shared<SimKey>(e.mk.ref));
		else s = made<magma::ECBSink>(make_shared<MemSink>(), e.mk.any);
		size_t off = 0;
		for (const size_t len : gen_pieces(plain.size(), unit)) {
			const Bytes b = slice(plain, off, len);
			const auto from = s;
			with_retries([&] { s = from->write(b); }, "write()");
			off += len;
		}
		shared_ptr<const Sink> f;
		with_retries([&] { f = s->finalize(); }, "finalize()");
		expect(content_of(f), ecb ? ecb_enc(e.mk.ref, plain) : c.enc(e.mk.ref, plain),
			"wrong-ciphertext", "ciphertext after retries");
		break;
	}
	case 2: {
		const bool ecb = rt::chance(rt::OPS, 300);
		const Cfb c = gen_cfb();
		const size_t unit = ecb ? 8 : 1;
		const Bytes cipher = gen_bytes(gen_size(400) / unit * unit);
		const Bytes want = ecb ? ecb_dec(e.mk.ref, cipher) : c.dec(e.mk.ref, cipher);
		shared_ptr<const Source> s;
		if (ecb && rt::chance(rt::OPS, 400)) {
			const auto box = make_container(e.mp);
			const auto under = mem_source(cipher);
			with_retries([&] { s = made<magma::ECBSource>(under, box); }, "ECBSource(container)");
		} else if (ecb) s = made<magma::ECBSource>(mem_source(cipher), e.mk.any);
		else s = c.source(mem_source(cipher), e.mk.any);
		Bytes got;
		for (;;) {
			size_t len = (ecb ? 8 : 0) + gen_piece(40);
			if (len == 0) len = 1;
			Bytes b;
			const auto from = s;
			with_retries([&] { std::tie(b, s) = from->read(len); }, "read()");
			append(got, b);
			expect_prefix(got, want, "wrong-plaintext", "plaintext after retries");
			if (b.empty()) break;
		}
		expect(got, want, "wrong-plaintext", "plaintext after retries");
		break;
	}
	default: {
		if (with_kuz && rt::chance(rt::OPS, 200)) {
			// the key itself is made while its provider fails
			shared_ptr<const kuz::Key> key;
			with_retries([&] { key = build(e.kp); }, "kuznyechik::Key()");
			const ref::U128 b = {rt::choose(rt::DATA, ~0ull), rt::choose(rt::DATA, ~0ull)};
			const auto block = make_shared<SimKuzBlock>(b);
			for (int i = 0; i < 2; i++) {
				pair<uint64_t, uint64_t> got;
				with_retries([&] { got = kuz::BlkEncrypted(block, key).value(); }, "BlkEncrypted::value()");
				const ref::U128 want = e.kp.ref.enc(b);
				if (got.first != want.lo || got.second != want.hi)
					rt::violation("wrong-result", "a block encrypted with a key made while its provider failed");
			}
			return;
		}
		const int kinds = with_kuz ? J_COUNT : J_KUZ_FIRST;
		const int kind = what == 3 ? J_MAGMA_MAC + int(rt::choose(rt::OPS, kinds - J_MAGMA_MAC))
			: J_KUZ_FIRST + int(rt::choose(rt::OPS, J_COUNT - J_KUZ_FIRST));
		cfg.armed = false;
		const Job j = make_job(e, kind, rt::choose(rt::OPS, 2), 80);
		cfg.armed = true;
		for (int i = 0; i < 2; i++) {
			Bytes got;
			with_retries([&] { got = j.run(); }, j.name.c_str());
			check_job(j, got);
		}
	}
	}
}

// C08: everything that can be shared is shared between tasks.
namespace {
struct Share {
	vector<Job> jobs;
	vector<int> plan[4];
	vector<Bytes> got[4];
	// refcount traffic on one handle
	shared_ptr<const Sink> sink;
	shared_ptr<const Source> source;
	Cfb cfb;
	ref::Magma ref;
	Bytes plain, cipher, pending;
	Bytes tail[4];
};
void share_task(void *arg, int id)
{
	Share *s = static_cast<Share *>(arg);
	const int me = id - 1;
	for (const int j : s->plan[me]) {
		Bytes r;
		if (j >= 0) {
			rt::Lib l;
			r = s->jobs[size_t(j)].run();
		} else if (j == -1) {
			// branch off the shared, half-written sink
			shared_ptr<const Sink> h;
			{
				rt::Lib l;
				h = s->sink->write(s->tail[me]);
				h = h->finalize();
			}
			r = content_of(h);
		} else {
			rt::Lib l;
			r = run_source(s->source, {size_t(1 + me), 9});
		}
		rt::Quiet q;
		s->got[me].push_back(r);
	}
}
}  // namespace

void c08_sharing()
{
	rt::sched_config();
	Share *s = new Share;
	const bool with_kuz = rt::chance(rt::OPS, 400);
	const Env e = gen_env(with_kuz);
	if (with_kuz) {
		const int n = 1 + int(rt::choose(rt::OPS, 2));
		for (int i = 0; i < n; i++)
			s->jobs.push_back(make_job(e, J_KUZ_FIRST + int(rt::choose(rt::OPS, J_COUNT - J_KUZ_FIRST)), true, 40));
	} else {
		const int n = 1 + int(rt::choose(rt::OPS, 3));
		for (int i = 0; i < n; i++)
			s->jobs.push_back(make_job(e, int(rt::choose(rt::OPS, J_KUZ_FIRST)), true, 100));
	}
	s->cfb = gen_cfb();
	s->plain = gen_bytes(rt::choose(rt::OPS, 30));
	s->cipher = gen_bytes(rt::choose(rt::OPS, 40));
	s->sink = s->cfb.sink(make_shared<MemSink>(), e.mk.any, slice(s->plain, 0, s->plain.size() % 8));
	s->source = s->cfb.source(mem_source(s->cipher), e.mk.any);
	const int nt = 2 + int(rt::choose(rt::OPS, 3));
	for (int t = 0; t < nt; t++) {
		s->tail[t] = gen_bytes(rt::choose(rt::OPS, 20));
		const int n = 1 + int(rt::choose(rt::OPS, with_kuz ? 2 : 3));
		for (int i = 0; i < n; i++) {
			const int extra = with_kuz ? 0 : 2;
			s->plan[t].push_back(int(rt::choose(rt::OPS, s->jobs.size() + size_t(extra))) - extra);
		}
	}
	rt::probe(rt::P_concurrent_same_object);
	rt::probe(rt::P_first_use_race_window);
	rt::parallel(nt, share_task, s);
	for (int t = 0; t < nt; t++) {
		for (size_t i = 0; i < s->plan[t].size(); i++) {
			const int j = s->plan[t][i];
			const Bytes &got = s->got[t][i];
			if (j >= 0) {
				expect(got, s->jobs[size_t(j)].want, "wrong-result", s->jobs[size_t(j)].name.c_str());
			} else if (j == -1) {
				Bytes p = slice(s->plain, 0, s->plain.size() % 8);
				append(p, s->tail[t]);
				expect(got, s->cfb.enc(e.mk.ref, p), "wrong-result", "a shared CFB sink");
			} else {
				expect(got, s->cfb.dec(e.mk.ref, s->cipher), "wrong-result", "a shared CFB source");
			}
		}
	}
	delete s;
}

// C09: lazily loaded values.
namespace {
// A provider whose answer changes with every load attempt, so a cache that
// mixes, re-reads or keeps failed loads shows.
struct Unstable {
	uint64_t epoch[8] = {};       // per task
	uint64_t calls[8] = {};       // per task
	uint8_t served[8] = {};       // bit per index, per task
	unsigned error = 0;
	uint64_t tag() const { return uint64_t(rt::self()) * 1000 + epoch[rt::self()]; }
};
// In some runs words are 0 or all ones, in every load or in some: values that
// code could take for "nothing there yet".
struct { uint32_t mask, value; bool always; } dull;
uint32_t word_of(uint64_t tag, int index)
{
	uint64_t x = tag * 8 + uint64_t(index) + 1;
	x *= 0x9e3779b97f4a7c15ull;
	x ^= x >> 31;
	x *= 0xbf58476d1ce4e5b9ull;
	if ((dull.mask >> (index & 7) & 1) && (dull.always || (tag * 0x9e3779b97f4a7c15ull) >> 63)) return dull.value;
	return uint32_t(x >> 20);
}
ref::U128 block_of(uint64_t tag)
{
	return {word_of(tag, 0) | (uint64_t(word_of(tag, 1)) << 32), word_of(tag, 2) | (uint64_t(word_of(tag, 3)) << 32)};
}
class UnstableKeyData final : public magma::KeyData {
public:
	explicit UnstableKeyData(Unstable *u) : u_(u) {}
	uint32_t key(int index) const override
	{
		rt::Seam s;
		rt::seam_point();
		uint64_t tag;
		bool fail;
		const int me = rt::self();
		{
			rt::Quiet q;
			u_->calls[me]++;
			tag = u_->tag();
			fail = cfg.armed && u_->error && rt::chance(rt::FAULT, u_->error);
			if (fail) {
				u_->epoch[me]++;
				u_->served[me] = 0;
			} else {
				u_->served[me] |= uint8_t(1u << (index & 7));
				if (u_->served[me] == 0xff) {
					u_->epoch[me]++;
					u_->served[me] = 0;
				}
			}
			rt::event(10, uint64_t(index), tag, fail);
			rt::log("key data: word %d of version %llu%s", index, (unsigned long long)tag, fail ? " fails" : "");
		}
		if (fail) {
			rt::fired(rt::F_key_error);
			SimErrRuntime e;
			e.id = cfg.last_error[me] = uint32_t(rt::fired_total());
			throw e;
		}
		rt::seam_point();
		return word_of(tag, index);
	}
private:
	Unstable *const u_;
};
class UnstableBlock final : public kuz::Block {
public:
	explicit UnstableBlock(Unstable *u) : u_(u) {}
	pair<uint64_t, uint64_t> value() const override
	{
		rt::Seam s;
		rt::seam_point();
		uint64_t tag;
		bool fail;
		const int me = rt::self();
		{
			rt::Quiet q;
			u_->calls[me]++;
			tag = u_->tag();
			fail = cfg.armed && u_->error && rt::chance(rt::FAULT, u_->error);
			u_->epoch[me]++;
			rt::event(11, tag, fail);
			rt::log("block provider: version %llu%s", (unsigned long long)tag, fail ? " fails" : "");
		}
		if (fail) {
			rt::fired(rt::F_block_error);
			SimErrRuntime e;
			e.id = cfg.last_error[me] = uint32_t(rt::fired_total());
			throw e;
		}
		rt::seam_point();
		const ref::U128 v = block_of(tag);
		return {v.lo, v.hi};
	}
private:
	Unstable *const u_;
};
class UnstableData final : public kuz::Key::Data {
public:
	UnstableData(Unstable *h, Unstable *l) : h(h), l(l) {}
	shared_ptr<const kuz::Block> low() const override { return make_shared<UnstableBlock>(l); }
	shared_ptr<const kuz::Block> high() const override { return make_shared<UnstableBlock>(h); }
private:
	Unstable *const h, *const l;
};

struct Cached {
	int what;                     // 0 KeyCachedData 1 BlkCached 2 kuz Key 3 LazyKey over a cache
	shared_ptr<const magma::KeyData> keydata;
	shared_ptr<const kuz::Block> block;
	shared_ptr<const kuz::Key> key;
	shared_ptr<const magma::LazyKey> lazy;
	Unstable u[2];
	vector<int> plan[4];
	uint64_t successes = 0;
	struct Obs { int index; uint64_t a, b; };
	vector<Obs> obs;
};
uint64_t calls(const Cached *c) { return c->u[0].calls[rt::self()] + c->u[1].calls[rt::self()]; }
void cached_task(void *arg, int id)
{
	Cached *c = static_cast<Cached *>(arg);
	for (const int op : c->plan[id - (rt::in_parallel() ? 1 : 0)]) {
		uint64_t before;
		bool settled;
		{
			rt::Quiet q;
			settled = c->successes > 0;
			before = calls(c);
		}
		uint64_t a = 0, b = 0;
		const uint32_t err = cfg.last_error[rt::self()];
		const Outcome o = attempt([&] {
			switch (c->what) {
			case 0: a = c->keydata->key(op % 8); break;
			case 1: { const auto v = c->block->value(); a = v.first; b = v.second; break; }
			case 2: { const auto v = c->key->encrypt(made<kuz::BlkRaw>(uint64_t(op % 3)))->value(); a = v.first; b = v.second; break; }
			default: a = c->lazy->transform(uint32_t(op / 8), op % 8);
			}
		});
		rt::Quiet q;
		if (o.r == OK) {
			if (settled && calls(c) != before)
				rt::violation("reloaded", "the provider was asked again after a value had been delivered");
			c->successes++;
			c->obs.push_back({op, a, b});
			rt::event(12, uint64_t(op), a, b);
		} else {
			rt::probe(rt::P_failed_load_retried);
			if (o.r != SIM_ERROR) rt::violation("wrong-error", "a failed load ended with %s", name(o.r));
			if (o.id != cfg.last_error[rt::self()] || o.id == err)
				rt::violation("wrong-error", "a failed load ended with a stale error");
			if (settled) rt::violation("reloaded", "a load failed after a value had been delivered");
		}
	}
}
}  // namespace

void c09_caches()
{
	rt::sched_config();
	dull = {0, 0, false};
	if (rt::chance(rt::DATA, 250)) {
		const uint64_t r = rt::choose(rt::DATA, 1 << 12);
		dull.mask = r & 1 ? 0xff : uint32_t(r >> 4);
		dull.value = r & 2 ? 0 : ~0u;
		dull.always = r & 4;
		rt::probe(rt::P_dull_values);
	}
	Cached *c = new Cached;
	const uint64_t kind = rt::choose(rt::OPS, 10);
	c->what = kind < 4 ? 0 : kind < 7 ? 1 : kind == 7 ? 2 : 3;
	const unsigned err = rt::chance(rt::OPS, 600) ? 50u << rt::choose(rt::OPS, 3) : 0;
	for (auto &u : c->u) u.error = c->what == 2 || c->what == 1 ? 2 * err : err;
	const bool with_sim = rt::choose(rt::OPS, 2);
	// failures without end, or uses without end
	const bool lasting = c->what != 2 && rt::chance(rt::OPS, 10);
	static const int uses[] = {40, 70, 140, 300, 1100, 4200};
	const int long_n = lasting ? uses[rt::choose(rt::OPS, err ? 4 : 6)] : 0;
	if (lasting) {
		if (err) c->u[0].error = 990;
		rt::probe(rt::P_error_storm);
	}
	switch (c->what) {
	case 0: c->keydata = made<magma::KeyCachedData>(make_unique<UnstableKeyData>(&c->u[0])); break;
	case 1: c->block = made<kuz::BlkCached>(make_shared<UnstableBlock>(&c->u[0])); break;
	case 2: c->key = made<kuz::Key>(make_shared<UnstableData>(&c->u[0], &c->u[1])); break;
	default: {
		ref::Magma m;
		memcpy(m.s, ref::sbox_r3412, sizeof m.s);
		shared_ptr<const magma::Sbox> sb;
		if (with_sim) sb = make_shared<SimSbox>(m); else sb = made<magma::SboxR3412>();
		c->lazy = made<magma::LazyKey>(
			made_unique<const magma::KeyCachedData>(make_unique<UnstableKeyData>(&c->u[0])), sb);
	}
	}
	const bool concurrent = rt::chance(rt::OPS, 700);
	const int nt = concurrent ? 2 + int(rt::choose(rt::OPS, 3)) : 1;
	for (int t = 0; t < nt; t++) {
		const int n = 1 + int(rt::choose(rt::OPS, c->what == 2 ? 2 : 6));
		for (int i = 0; i < n; i++) c->plan[t].push_back(int(rt::choose(rt::OPS, 80)));
		for (int i = 0; i < long_n; i++) c->plan[t].push_back((i * 7 + t) % 80);
	}
	if (concurrent) {
		rt::probe(rt::P_first_use_race_window);
		rt::parallel(nt, cached_task, c);
	} else {
		cached_task(c, 0);
	}
	// a final look, with the faults stopped, must succeed
	cfg.armed = false;
	c->plan[0].clear();
	for (int i = 0; i < (c->what == 2 ? 1 : 8); i++) c->plan[0].push_back(i);
	cached_task(c, 0);
	if (c->obs.empty()) rt::violation("no-recovery", "no load succeeded after the faults stopped");
	// all observations come from one complete load
	bool found = false;
	for (uint64_t t = 0; t < 5 && !found; t++) {
		for (uint64_t ep = 0; ep <= c->u[0].epoch[t] && !found; ep++) {
			const uint64_t tag = t * 1000 + ep;
			if (c->what == 2) {
				// both key halves are cached separately
				for (uint64_t t2 = 0; t2 < 5 && !found; t2++) {
					for (uint64_t e2 = 0; e2 <= c->u[1].epoch[t2] && !found; e2++) {
						ref::Kuz k;
						k.set(block_of(tag), block_of(t2 * 1000 + e2));
						bool all = true;
						for (const auto &o : c->obs) {
							const ref::U128 w = k.enc({uint64_t(o.index % 3), 0});
							if (w.lo != o.a || w.hi != o.b) { all = false; break; }
						}
						found = all;
					}
				}
				continue;
			}
			bool all = true;
			for (const auto &o : c->obs) {
				if (c->what == 0) {
					if (o.a != word_of(tag, o.index % 8)) { all = false; break; }
				} else if (c->what == 1) {
					const ref::U128 w = block_of(tag);
					if (w.lo != o.a || w.hi != o.b) { all = false; break; }
				} else {
					ref::Magma m;
					memcpy(m.s, ref::sbox_r3412, sizeof m.s);
					if (o.a != m.f(uint32_t(o.index / 8) + word_of(tag, o.index % 8))) { all = false; break; }
				}
			}
			found = all;
		}
	}
	if (!found) rt::violation("unstable-value", "%zu answers do not come from one load of the provider", c->obs.size());
	delete c;
}

// C10: any allocation may fail.
void c10_alloc()
{
	const bool with_kuz = rt::chance(rt::OPS, 350);
	cfg.short_read = 200 * unsigned(rt::choose(rt::OPS, 3));
	const Env e = gen_env(with_kuz);
	const int kind = with_kuz ? J_KUZ_FIRST + int(rt::choose(rt::OPS, J_COUNT - J_KUZ_FIRST))
		: int(rt::choose(rt::OPS, J_KUZ_FIRST));
	const bool prebuilt = rt::chance(rt::OPS, 300);
	const Job j = make_job(e, kind, prebuilt, with_kuz ? 40 : 120);
	// a first run without faults warms every lazily made static object
	const bool warm = rt::chance(rt::OPS, 800);
	uint64_t count = 300;
	if (warm) {
		const uint64_t a0 = rt::alloc_count();
		Bytes got;
		{
			rt::Lib l;
			got = j.run();
		}
		check_job(j, got);
		count = rt::alloc_count() - a0;
	}
	const rt::HeapMark mark = rt::heap_mark();
	const int rounds = with_kuz ? 2 : 1 + int(rt::choose(rt::OPS, 6));
	for (int i = 0; i < rounds; i++) {
		const uint64_t nth = 1 + rt::propose(rt::FAULT, rt::bits(rt::FAULT) % (count + 1), count);
		const bool forever = rt::chance(rt::FAULT, 200);
		rt::log("%s with allocation %llu of %llu failing%s", j.name.c_str(), (unsigned long long)nth,
			(unsigned long long)count, forever ? " and all later ones" : "");
		{
			Bytes got;
			rt::alloc_arm(nth, forever);
			const Outcome o = attempt([&] { got = j.run(); });
			const bool hit = rt::alloc_fired();
			rt::alloc_arm(0, false);
			if (o.r == OK) {
				if (hit) rt::probe(rt::P_alloc_absorbed);
				check_job(j, got);
			} else if (o.r != BAD_ALLOC) {
				rt::violation("wrong-error", "%s: an allocation failure surfaced as %s", j.name.c_str(), name(o.r));
			} else if (!hit) {
				rt::violation("wrong-error", "%s: bad_alloc without an allocation failure", j.name.c_str());
			}
		}
		const uint64_t lost = rt::leaked_since(mark);
		if (lost)
			rt::violation("leak", "%s: %llu heap blocks left over after an allocation failure", j.name.c_str(),
				(unsigned long long)lost);
	}
	Bytes got;
	{
		rt::Lib l;
		got = j.run();
	}
	rt::probe(rt::P_retry_after_fault);
	check_job(j, got);
}

// C14: references are dropped at arbitrary points.
namespace {
struct Life {
	vector<Job> jobs[4];
	shared_ptr<const kuz::Iterator> it[4];
	vector<ref::U128> left[4];
	shared_ptr<const Sink> sink[4];
	Bytes sink_want[4], sink_tail[4];
	shared_ptr<const Source> src[4];
	Bytes src_want[4];
};
void life_use(Life *s, int me)
{
	for (auto &j : s->jobs[me]) {
		Bytes got;
		{
			rt::Lib l;
			got = j.run();
		}
		check_job(j, got);
		rt::fired(rt::F_drop_reference);
		rt::Lib l;
		j.run = nullptr;
	}
	for (size_t i = 0; i < s->left[me].size(); i++) {
		rt::Lib l;
		if (!s->it[me]) rt::violation("null-iterator", "the stream ended early");
		const ref::U128 v = u(s->it[me]->value());
		if (v.lo != s->left[me][i].lo || v.hi != s->left[me][i].hi)
			rt::violation("wrong-result", "an iterator that outlived its stream gives a wrong block");
		const bool last = s->it[me]->last();
		if (last != (i + 1 == s->left[me].size()))
			rt::violation("wrong-result", "an iterator that outlived its stream has a wrong last()");
		if (last) { s->it[me].reset(); break; }
		auto n = s->it[me]->next();
		rt::fired(rt::F_drop_reference);
		s->it[me] = n;
	}
	if (s->sink[me]) {
		shared_ptr<const Sink> f;
		{
			rt::Lib l;
			auto h = s->sink[me]->write(s->sink_tail[me]);
			s->sink[me].reset();
			f = h->finalize();
		}
		rt::fired(rt::F_drop_reference);
		expect(content_of(f), s->sink_want[me], "wrong-result", "a stream whose earlier handles are gone");
	}
	if (s->src[me]) {
		auto h = s->src[me];
		s->src[me].reset();
		rt::fired(rt::F_drop_reference);
		Bytes got;
		{
			rt::Lib l;
			got = run_source(std::move(h), {1, 3, 8});
		}
		expect(got, s->src_want[me], "wrong-result", "a source whose earlier handles are gone");
	}
}
void life_task(void *arg, int id) { life_use(static_cast<Life *>(arg), id - 1); }

void life_round(bool with_kuz, bool concurrent)
{
	Life *s = new Life;
	const int nt = concurrent ? 2 + int(rt::choose(rt::OPS, 2)) : 1;
	{
		Env e = gen_env(with_kuz);
		if (with_kuz) {
			// iterators that outlive their stream, their key and each other
			const size_t n = 1 + rt::choose(rt::OPS, 4);
			const auto b = gen_blocks(n);
			const uint64_t iv = gen_word();
			const bool ctr = rt::choose(rt::OPS, 2);
			shared_ptr<const kuz::Stream> st;
			if (rt::choose(rt::OPS, 3) == 2) st = make_shared<SimStream>(b, 16);
			else st = made<kuz::StMemory>(words(b, false));
			if (ctr) st = made<kuz::StCTREncrypted>(st, e.kk, iv);
			for (int t = 0; t < nt; t++) {
				rt::Lib l;
				s->it[t] = st->iter();
				for (size_t i = 0; i < n; i++)
					s->left[t].push_back(ctr ? ref::kuz_ctr(e.kp.ref, iv, i, b[i]) : b[i]);
			}
			rt::probe(rt::P_iterator_outlives_stream);
			for (int t = 0; t < nt; t++)
				if (rt::choose(rt::OPS, 2))
					s->jobs[t].push_back(make_job(e, J_KUZ_FIRST + int(rt::choose(rt::OPS, J_COUNT - J_KUZ_FIRST)), true, 30));
		} else {
			const Cfb c = gen_cfb();
			const Bytes head = gen_bytes(rt::choose(rt::OPS, 20));
			const Bytes cipher = gen_bytes(rt::choose(rt::OPS, 40));
			shared_ptr<const Sink> h;
			shared_ptr<const Source> r;
			{
				rt::Lib l;
				h = c.sink(make_shared<MemSink>(), e.mk.any)->write(head);
				r = c.source(mem_source(cipher), e.mk.any);
			}
			for (int t = 0; t < nt; t++) {
				s->sink[t] = h;
				s->sink_tail[t] = gen_bytes(rt::choose(rt::OPS, 20));
				Bytes p = head;
				append(p, s->sink_tail[t]);
				s->sink_want[t] = c.enc(e.mk.ref, p);
				s->src[t] = r;
				s->src_want[t] = c.dec(e.mk.ref, cipher);
				const int n = int(rt::choose(rt::OPS, 3));
				for (int i = 0; i < n; i++)
					s->jobs[t].push_back(make_job(e, int(rt::choose(rt::OPS, J_KUZ_FIRST)), true, 60));
			}
		}
		// shared jobs: the last task to finish frees the object
		if (concurrent && !s->jobs[0].empty()) {
			s->jobs[1].push_back(s->jobs[0][0]);
			rt::probe(rt::P_last_handle_freed);
		}
		// the key and the stream objects die here
	}
	if (concurrent) rt::parallel(nt, life_task, s);
	else life_use(s, 0);
	delete s;
}
}  // namespace

void c14_lifetime()
{
	rt::sched_config();
	const bool with_kuz = rt::chance(rt::OPS, 450);
	const bool concurrent = rt::choose(rt::OPS, 2);
	// one round before the mark, so that what it leaves to later ones is seen
	if (rt::chance(rt::OPS, 300)) life_round(with_kuz, false);
	const rt::HeapMark mark = rt::heap_mark();
	life_round(with_kuz, concurrent);
	const uint64_t lost = rt::leaked_since(mark);
	if (lost)
		rt::violation("leak", "%llu heap blocks left over after every reference was dropped", (unsigned long long)lost);
}

}  // namespace sim
