// Scenarios about the CFB/ECB byte streams.
#include "jobs.h"
#include "scn.h"

namespace sim {

// the next piece: everything, what the user's buffer holds, or any part
static size_t next_piece(size_t left, bool coarse, size_t buffer)
{
	if (buffer && rt::choose(rt::OPS, 8) != 7) return std::min(left, buffer);
	return coarse ? left : gen_piece(left);
}

// C01: the ciphertext does not depend on how the plaintext was split.
void c01_cfb_split()
{
	const MagmaKey k = gen_magma_key();
	const Cfb c = gen_cfb();
	const Bytes pending = gen_bytes(rt::chance(rt::OPS, 250) ? rt::choose(rt::OPS, rt::choose(rt::OPS, 4) == 3 ? 40 : 8) : 0);
	Bytes plain = pending;
	const size_t buffer = gen_buffer();
	append(plain, gen_bytes(gen_length(3000, buffer)));
	const Bytes want = c.enc(k.ref, plain);
	const bool dev = rt::choose(rt::OPS, 2) || plain.size() > 20000;
	Device d;
	shared_ptr<const Sink> under;
	if (dev) under = make_shared<DevSink>(&d); else under = make_shared<MemSink>();
	shared_ptr<const Sink> s;
	{
		rt::Lib l;
		s = pending.empty() && rt::choose(rt::OPS, 2) == 0 ? c.sink(under, k.any) : c.sink(under, k.any, pending);
	}
	if (plain.size() % 8) rt::probe(rt::P_partial_last_block);
	if (plain.empty()) rt::probe(rt::P_empty_stream);
	const bool coarse = rt::chance(rt::OPS, 100);
	size_t off = pending.size();
	int zeros = 0;
	while (off < plain.size() || (zeros == 0 && rt::chance(rt::OPS, 300))) {
		size_t n = next_piece(plain.size() - off, coarse, buffer);
		if (n == 0) {
			rt::probe(rt::P_empty_write);
			if (zeros++ > 3 && off < plain.size()) n = 1;
		}
		rt::probe(rt::P_ops);
		const Bytes part = slice(plain, off, n);
		rt::log("write(%zu bytes)", n);
		{
			rt::Lib l;
			s = s->write(part);
		}
		if (!s) rt::violation("null-handle", "write() returned no successor");
		off += n;
		if (dev) {
			expect_prefix(d.durable, want, "wrong-ciphertext", "ciphertext written so far");
		} else if (rt::chance(rt::OPS, 150)) {
			rt::probe(rt::P_finalize_intermediate);
			shared_ptr<const Sink> f;
			{
				rt::Lib l;
				f = s->finalize();
			}
			expect(content_of(f), c.enc(k.ref, slice(plain, 0, off)), "wrong-ciphertext", "finalized part");
		}
	}
	shared_ptr<const Sink> f;
	{
		rt::Lib l;
		f = s->finalize();
	}
	if (dev) {
		expect(d.durable, want, "wrong-ciphertext", "ciphertext");
		if (!dynamic_cast<const DevSink *>(f.get()))
			rt::violation("not-underlying-sink", "finalize() did not return the underlying sink");
		return;
	}
	expect(content_of(f), want, "wrong-ciphertext", "ciphertext");
	{
		rt::Lib l;
		f = s->finalize();
	}
	expect(content_of(f), want, "wrong-ciphertext", "ciphertext of a second finalize()");
}

// C02: the plaintext does not depend on request sizes or upstream short reads.
void c02_cfb_read()
{
	cfg.short_read = rt::chance(rt::OPS, 650) ? 100 + 100 * unsigned(rt::choose(rt::OPS, 9)) : 0;
	const MagmaKey k = gen_magma_key();
	const Cfb c = gen_cfb();
	const Bytes pending = gen_bytes(rt::chance(rt::OPS, 200) ? rt::choose(rt::OPS, 20) : 0);
	const size_t buffer = gen_buffer();
	const Bytes cipher = gen_bytes(gen_length(3000, buffer));
	Bytes want = pending;
	append(want, c.dec(k.ref, cipher));
	File file{cipher};
	shared_ptr<const Source> under;
	if (rt::choose(rt::OPS, 2)) under = make_shared<FileSource>(&file); else under = mem_source(cipher);
	shared_ptr<const Source> s;
	{
		rt::Lib l;
		s = pending.empty() && rt::choose(rt::OPS, 2) == 0 ? c.source(under, k.any) : c.source(under, k.any, pending);
	}
	if (cipher.size() % 8) rt::probe(rt::P_partial_last_block);
	if (cipher.empty()) rt::probe(rt::P_empty_stream);
	Bytes got;
	int zeros = 0;
	const int style = int(rt::choose(rt::OPS, 4));
	for (;;) {
		size_t n;
		if (buffer && rt::choose(rt::OPS, 8) != 7) n = buffer;
		else if (style == 1) n = 1;
		else if (style == 2 && rt::chance(rt::OPS, 300)) {
			n = gen_huge();
			rt::probe(rt::P_huge_request);
		} else n = gen_piece(style == 3 ? want.size() + 16 : 40);
		if (n == 0) {
			rt::probe(rt::P_zero_request);
			if (zeros++ > 3) n = 1;
		}
		rt::probe(rt::P_ops);
		rt::log("read(%zu)", n);
		Bytes b;
		{
			rt::Lib l;
			std::tie(b, s) = s->read(n);
		}
		if (!s) rt::violation("null-handle", "read() returned no successor");
		if (b.size() > n) rt::violation("too-many-bytes", "read(%zu) returned %zu bytes", n, b.size());
		// only the new bytes: what was compared before has not changed
		expect_prefix(b, slice(want, got.size(), b.size()), "wrong-plaintext", "the next bytes read");
		append(got, b);
		if (b.empty() && n > 0) break;
	}
	expect(got, want, "wrong-plaintext", "plaintext at the end of the stream");
	for (int i = 0; i < 2; i++) {
		rt::probe(rt::P_read_past_end);
		Bytes b;
		{
			rt::Lib l;
			std::tie(b, s) = s->read(1 + gen_piece(20));
		}
		if (!b.empty()) rt::violation("bytes-after-end", "%zu bytes after the end of the stream", b.size());
	}
}

// C03: ECB is exact on whole blocks and refuses everything else.
void c03_ecb()
{
	cfg.short_read = rt::chance(rt::OPS, 600) ? 100 + 150 * unsigned(rt::choose(rt::OPS, 6)) : 0;
	const MagmaParams p = gen_magma();
	const MagmaKey k = build(p);
	if (rt::choose(rt::OPS, 2) == 0) {
		const size_t buffer = gen_buffer();
		const size_t whole = gen_length(1600, buffer) / 8 * 8;
		const Bytes plain = gen_bytes(whole);
		const Bytes want = ecb_enc(k.ref, plain);
		// what reaches a device cannot be taken back, not even by a refusal
		Device d;
		const bool dev = rt::choose(rt::OPS, 2);
		shared_ptr<const Sink> s, under;
		if (dev) under = make_shared<DevSink>(&d); else under = make_shared<MemSink>();
		{
			rt::Lib l;
			if (rt::choose(rt::OPS, 3) == 1)
				s = made<magma::ECBSink>(under, make_shared<SimKey>(k.ref));
			else
				s = made<magma::ECBSink>(under, k.any);
		}
		size_t off = 0;
		int extra = 0;
		while (off < whole || (extra++ < 2 && rt::chance(rt::OPS, 400))) {
			rt::probe(rt::P_ops);
			if (rt::chance(rt::OPS, 200)) {
				// an unaligned write is refused and leaves the handle as it was
				const size_t n = gen_piece(rt::chance(rt::OPS, 100) ? 5000 : 64) / 8 * 8 + 1 + rt::choose(rt::OPS, 7);
				const Bytes junk = gen_bytes(n);
				const Outcome o = attempt([&] { s->write(junk); });
				if (o.r != REFUSED)
					rt::violation("unaligned-accepted", "a write of %zu bytes ended with %s", n, name(o.r));
				rt::probe(rt::P_refused_unaligned);
				if (dev) expect(d.durable, slice(want, 0, off), "refused-but-passed-on", "device after a refused write");
				continue;
			}
			const size_t n = next_piece(whole - off, false, buffer) / 8 * 8;
			const Bytes part = slice(plain, off, n);
			rt::Lib l;
			s = s->write(part);
			off += n;
		}
		shared_ptr<const Sink> f;
		{
			rt::Lib l;
			f = s->finalize();
		}
		expect(dev ? d.durable : content_of(f), want, "wrong-ciphertext", "ECB ciphertext");
		return;
	}
	const size_t buffer = gen_buffer();
	const size_t total = gen_length(1600, buffer);
	const size_t whole = total / 8 * 8;
	const size_t frag = rt::chance(rt::OPS, 500) ? total % 8 : 0;
	if (frag) rt::fired(rt::F_truncation);
	File file;
	file.data = gen_bytes(whole + frag);
	const Bytes tail = gen_bytes(8 * rt::choose(rt::OPS, 4));
	Bytes all = slice(file.data, 0, whole);
	append(all, tail);
	const Bytes want = ecb_dec(k.ref, all);
	const bool grow = frag == 0 && rt::choose(rt::OPS, 2);
	shared_ptr<const Source> under;
	if (grow || rt::choose(rt::OPS, 2)) under = make_shared<FileSource>(&file); else under = mem_source(file.data);
	shared_ptr<const Source> s;
	{
		rt::Lib l;
		if (rt::choose(rt::OPS, 2)) s = made<magma::ECBSource>(under, k.any);
		else s = made<magma::ECBSource>(under, make_container(p));
	}
	Bytes got;
	bool ended = false;
	for (int idle = 0; idle < 6; ) {
		rt::probe(rt::P_ops);
		if (rt::chance(rt::OPS, 120)) {
			const size_t n = rt::choose(rt::OPS, 8);
			const Outcome o = attempt([&] { s->read(n); });
			if (o.r != REFUSED)
				rt::violation("unaligned-accepted", "a request for %zu bytes ended with %s", n, name(o.r));
			rt::probe(rt::P_refused_unaligned);
			idle += ended;
			continue;
		}
		const size_t n = buffer >= 8 && rt::choose(rt::OPS, 8) != 7 ? buffer : rt::chance(rt::OPS, 30) ? gen_huge() : 8 + gen_piece(rt::chance(rt::OPS, 100) ? 5000 : 56);
		Bytes b;
		const Outcome o = attempt([&] { std::tie(b, s) = s->read(n); });
		if (o.r == REFUSED) {
			if (frag == 0 || ended || whole - got.size() >= n)
				rt::violation("spurious-refusal", "read(%zu) with %zu whole bytes and %zu stray bytes left was refused",
					n, whole - got.size(), frag);
			rt::probe(rt::P_tail_refused);
			return;
		}
		if (!s) rt::violation("null-handle", "read() returned no successor");
		if (b.size() > n) rt::violation("too-many-bytes", "read(%zu) returned %zu bytes", n, b.size());
		append(got, b);
		if (b.empty()) {
			if (frag) rt::violation("tail-dropped", "the last %zu ciphertext bytes were silently dropped", frag);
			if (!ended) expect(got, slice(want, 0, whole), "wrong-plaintext", "ECB plaintext");
			if (!ended && grow) {
				rt::probe(rt::P_source_grew_after_end);
				rt::Quiet q;
				append(file.data, tail);
			}
			ended = true;
			idle++;
		}
		expect_prefix(got, ended && !grow ? slice(want, 0, whole) : want, "wrong-plaintext", "ECB plaintext so far");
	}
}

// C04: producer and consumer tasks joined by a bounded channel.
namespace {
struct Layer { int type; Cfb cfb; MagmaKey key; };   // type 0 CFB, 1 ECB
struct Pipe {
	vector<Layer> layers;
	Channel ch;
	Bytes plain;
	Bytes wire;
	vector<size_t> pieces;
	size_t min_req = 0;
	Bytes got;
	bool done = false;
};
struct PipeRun { Pipe pipe[2]; int n; };

void pipe_producer(Pipe &p)
{
	shared_ptr<const Sink> s = make_shared<ChannelSink>(&p.ch);
	for (size_t i = p.layers.size(); i-- > 0; ) {
		const Layer &y = p.layers[i];
		rt::Lib l;
		if (y.type == 0) s = y.cfb.sink(s, y.key.any);
		else s = made<magma::ECBSink>(s, y.key.any);
	}
	size_t off = 0;
	for (const size_t n : p.pieces) {
		const Bytes b = slice(p.plain, off, n);
		{
			rt::Lib l;
			s = s->write(b);
		}
		off += n;
		rt::Quiet q;
		expect_prefix(p.ch.wire, p.wire, "wrong-ciphertext", "bytes on the wire");
	}
	for (size_t i = 0; i < p.layers.size(); i++) {
		rt::Lib l;
		s = s->finalize();
	}
	{
		rt::Quiet q;
		expect(p.ch.wire, p.wire, "wrong-ciphertext", "bytes on the wire at the end");
	}
	close(p.ch);
}
void pipe_consumer(Pipe &p)
{
	shared_ptr<const Source> s = make_shared<ChannelSource>(&p.ch);
	for (size_t i = p.layers.size(); i-- > 0; ) {
		const Layer &y = p.layers[i];
		rt::Lib l;
		if (y.type == 0) s = y.cfb.source(s, y.key.any);
		else s = made<magma::ECBSource>(s, y.key.any);
	}
	for (;;) {
		size_t n = rt::chance(rt::OPS, 15) ? gen_huge() : p.min_req + gen_piece(48);
		if (n == 0) n = 1;
		Bytes b;
		{
			rt::Lib l;
			std::tie(b, s) = s->read(n);
		}
		if (b.size() > n) rt::violation("too-many-bytes", "read(%zu) returned %zu bytes", n, b.size());
		if (b.empty()) break;
		append(p.got, b);
		expect_prefix(p.got, p.plain, "wrong-plaintext", "bytes received so far");
	}
	expect(p.got, p.plain, "wrong-plaintext", "bytes received");
	p.done = true;
}
void pipe_task(void *arg, int id)
{
	PipeRun *r = static_cast<PipeRun *>(arg);
	Pipe &p = r->pipe[(id - 1) / 2];
	if (id % 2) pipe_producer(p); else pipe_consumer(p);
}
}  // namespace

void c04_pipeline()
{
	rt::sched_config();
	cfg.short_read = 150 * unsigned(rt::choose(rt::OPS, 6));
	PipeRun *r = new PipeRun;
	r->n = 1 + (rt::chance(rt::OPS, 350) ? 1 : 0);
	const MagmaKey shared = gen_magma_key();
	for (int i = 0; i < r->n; i++) {
		Pipe &p = r->pipe[i];
		const int nl = 1 + int(rt::choose(rt::OPS, 3));
		if (nl > 1) rt::probe(rt::P_nested_streams);
		bool ecb = false;
		for (int j = 0; j < nl; j++) {
			Layer y;
			y.type = rt::chance(rt::OPS, 250) ? 1 : 0;
			y.cfb = gen_cfb();
			y.key = rt::choose(rt::OPS, 2) ? gen_magma_key() : shared;
			if (y.type) ecb = true;
			p.layers.push_back(y);
		}
		const size_t unit = ecb ? 8 : 1;
		p.plain = gen_bytes(gen_size(500) / unit * unit);
		// writes must be whole blocks only where ECB is the first layer
		p.pieces = gen_pieces(p.plain.size(), p.layers[0].type ? 8 : 1);
		p.min_req = p.layers[0].type ? 8 : 0;
		p.ch.capacity = 1 + rt::choose(rt::OPS, 40);
		p.wire = p.plain;
		for (const Layer &y : p.layers)
			p.wire = y.type == 0 ? y.cfb.enc(y.key.ref, p.wire) : ecb_enc(y.key.ref, p.wire);
		if (p.plain.size() % 8) rt::probe(rt::P_partial_last_block);
	}
	if (r->n == 2) rt::probe(rt::P_concurrent_same_object);
	rt::parallel(2 * r->n, pipe_task, r);
	for (int i = 0; i < r->n; i++)
		if (!r->pipe[i].done) rt::violation("incomplete", "the consumer never finished");
	delete r;
}

// C06: crash, torn write, restart, resume.
void c06_crash_resume()
{
	cfg.short_read = 200 * unsigned(rt::choose(rt::OPS, 4));
	const MagmaKey k = gen_magma_key();
	const Cfb c = gen_cfb();
	const Bytes plain = gen_bytes(gen_length(1500));
	const Bytes want = c.enc(k.ref, plain);
	Device d;
	size_t at = 0;                      // plaintext consumed when (re)starting
	int crashes = 0;
	for (;;) {
		// restart: rebuild the stream from what is durable
		d.dead = false;
		const size_t keep = d.durable.size() / 8 * 8;
		if (crashes) {
			rt::probe(crashes == 1 ? rt::P_resume_after_crash : rt::P_second_crash);
			d.durable.resize(keep);
		}
		const Cfb state = c.after(d.durable, keep);
		at = keep;
		// some of the unfinished block may be handed over as pending bytes
		const size_t left = plain.size() - at;
		const size_t pend = rt::choose(rt::OPS, std::min<size_t>(left, rt::choose(rt::OPS, 4) == 3 ? 40 : 7) + 1);
		shared_ptr<const Sink> s;
		{
			rt::Lib l;
			s = state.sink(make_shared<DevSink>(&d), k.any, slice(plain, at, pend));
		}
		at += pend;
		d.crash_at = 0;
		if (crashes < 3 && rt::chance(rt::FAULT, 700)) {
			const size_t blocks = (plain.size() - keep) / 8 + 1;
			d.crash_at = 1 + rt::choose(rt::FAULT, blocks);
			d.torn = rt::choose(rt::FAULT, 2);
			d.torn_bytes = rt::choose(rt::FAULT, 64);
		}
		bool crashed = false;
		int zeros = 0;
		while (at < plain.size()) {
			size_t n = gen_piece(plain.size() - at);
			if (n == 0 && zeros++ > 3) n = 1;
			const Bytes part = slice(plain, at, n);
			rt::probe(rt::P_ops);
			const Outcome o = attempt([&] { s = s->write(part); });
			expect_prefix(d.durable, want, "wrong-ciphertext", "durable bytes");
			if (o.r == CRASHED) {
				crashed = true;
				break;
			}
			if (o.r != OK) rt::violation("spurious-error", "write() ended with %s", name(o.r));
			at += n;
			if (d.durable.size() < at / 8 * 8)
				rt::violation("block-held-back", "%zu of %zu bytes passed on when write() returned",
					d.durable.size(), at / 8 * 8);
		}
		if (!crashed) {
			const Outcome o = attempt([&] { s->finalize(); });
			expect_prefix(d.durable, want, "wrong-ciphertext", "durable bytes");
			if (o.r == CRASHED) crashed = true;
			else if (o.r != OK) rt::violation("spurious-error", "finalize() ended with %s", name(o.r));
		}
		// whatever survived decrypts to a prefix of what was written
		if (crashed || rt::chance(rt::OPS, 300)) {
			const size_t n = d.durable.size();
			const size_t from = rt::choose(rt::OPS, n / 8 + 1) * 8;
			const Bytes cut = slice(d.durable, from, n - from);
			const Bytes got = drain(c.after(d.durable, from).source(mem_source(cut), k.any), 0, cut.size());
			expect(got, slice(plain, from, n - from), "wrong-plaintext", "recovered bytes");
			if (n < want.size()) rt::fired(rt::F_truncation);
		}
		if (!crashed) break;
		crashes++;
	}
	expect(d.durable, want, "wrong-ciphertext", "ciphertext after the last restart");
}

// C07: damage in transit stays where the mode confines it.
void c07_corruption()
{
	cfg.short_read = 150 * unsigned(rt::choose(rt::OPS, 5));
	const int mode = int(rt::choose(rt::OPS, 4));        // 0,1 CFB, 2 ECB, 3 CTR
	const size_t nb = 2 + rt::choose(rt::OPS, 24);
	if (mode == 3) {
		const KuzParams p = gen_kuz();
		const auto key = build(p);
		const size_t n = 1 + rt::choose(rt::OPS, 6);
		auto b = gen_blocks(n);
		const uint64_t iv = gen_word();
		auto cipher = b;
		for (size_t i = 0; i < n; i++) cipher[i] = ref::kuz_ctr(p.ref, iv, i, b[i]);
		auto want = b;
		const int flips = 1 + int(rt::choose(rt::FAULT, 3));
		for (int f = 0; f < flips; f++) {
			const size_t at = rt::choose(rt::FAULT, n);
			const uint64_t bit = 1ull << rt::choose(rt::FAULT, 64);
			rt::fired(rt::F_bit_flip);
			if (rt::choose(rt::FAULT, 2)) { cipher[at].lo ^= bit; want[at].lo ^= bit; }
			else { cipher[at].hi ^= bit; want[at].hi ^= bit; }
		}
		rt::Lib l;
		const kuz::StCTREncrypted st(made<kuz::StMemory>(words(cipher, false)), key, iv);
		auto it = st.iter();
		for (size_t i = 0; i < n; i++) {
			if (!it) rt::violation("null-iterator", "the stream ended early");
			const ref::U128 v = u(it->value());
			if (v.lo != want[i].lo || v.hi != want[i].hi)
				rt::violation("damage-spread", "block %zu of the CTR stream is not the damaged block's own bits", i);
			if (i + 1 < n) it = it->next();
		}
		rt::probe(rt::P_resync_checked);
		return;
	}
	const MagmaParams p = gen_magma();
	const MagmaKey k = build(p);
	Cfb c = gen_cfb();
	if (mode == 2) c.m = 0;
	const size_t tail = mode == 2 ? 0 : rt::choose(rt::OPS, 8);
	const Bytes plain = gen_bytes(nb * 8 + tail);
	Bytes wire = mode == 2 ? ecb_enc(k.ref, plain) : c.enc(k.ref, plain);
	// map[i]: which original block sits at position i of the damaged wire
	const size_t pos = wire.size() / 8;
	vector<size_t> map(pos);
	vector<uint64_t> flip(pos + 1, 0);
	for (size_t i = 0; i < pos; i++) map[i] = i;
	const int kinds = 1 + int(rt::choose(rt::FAULT, 2));
	for (int e = 0; e < kinds; e++) {
		const int kind = int(rt::choose(rt::FAULT, 5));
		if (map.empty()) break;
		const size_t at = rt::choose(rt::FAULT, map.size());
		if (kind == 0) {
			const unsigned bit = unsigned(rt::choose(rt::FAULT, 64));
			u8(wire)[at * 8 + bit / 8] ^= uint8_t(1u << (bit % 8));
			flip[at] ^= 1ull << bit;
			rt::fired(rt::F_bit_flip);
		} else if (kind == 1) {
			wire.erase(wire.begin() + at * 8, wire.begin() + at * 8 + 8);
			map.erase(map.begin() + at);
			flip.erase(flip.begin() + at);
			rt::fired(rt::F_block_lost);
		} else if (kind == 3) {
			// a hole: the block reads as zeros
			uint64_t v;
			memcpy(&v, &wire[at * 8], 8);
			flip[at] ^= v;
			memset(&wire[at * 8], 0, 8);
			rt::fired(rt::F_block_zeroed);
		} else if (kind == 4 && map.size() > 1) {
			size_t to = rt::choose(rt::FAULT, map.size() - 1);
			to += to >= at;
			std::swap_ranges(wire.begin() + at * 8, wire.begin() + at * 8 + 8, wire.begin() + to * 8);
			std::swap(map[at], map[to]);
			std::swap(flip[at], flip[to]);
			rt::fired(rt::F_block_reordered);
		} else {
			const Bytes b = slice(wire, at * 8, 8);
			wire.insert(wire.begin() + at * 8, b.begin(), b.end());
			map.insert(map.begin() + at, map[at]);
			flip.insert(flip.begin() + at, flip[at]);
			rt::fired(rt::F_block_duplicated);
		}
	}
	shared_ptr<const Source> s;
	{
		rt::Lib l;
		if (mode == 2) s = made<magma::ECBSource>(mem_source(wire), k.any);
		else s = c.source(mem_source(wire), k.any);
	}
	const Bytes got = drain(s, mode == 2 ? 8 : 0, wire.size());
	if (got.size() != wire.size())
		rt::violation("wrong-length", "%zu damaged ciphertext bytes gave %zu bytes", wire.size(), got.size());
	// a block is intact if its keystream input and its own bits are
	size_t clean = 0;
	for (size_t i = 0; i <= map.size(); i++) {
		const bool is_tail = i == map.size();
		const size_t len = is_tail ? tail : 8;
		if (len == 0) break;
		const size_t orig = is_tail ? nb : map[i];
		bool key_ok = true;
		if (c.m) {
			// the register block is m positions back: it must be the original's own
			if (i < size_t(c.m)) key_ok = orig == i;
			else key_ok = flip[i - size_t(c.m)] == 0 && orig >= size_t(c.m) && map[i - size_t(c.m)] == orig - size_t(c.m);
		}
		const uint64_t f = is_tail ? 0 : flip[i];
		if (!key_ok) continue;
		if (c.m == 0 && f) continue;
		Bytes want = slice(plain, orig * 8, len);
		for (size_t j = 0; j < len; j++) want[j] ^= byte(f >> (8 * j));
		expect(slice(got, i * 8, len), want, "damage-spread", "a block outside the damaged area");
		clean++;
	}
	if (clean) rt::probe(rt::P_resync_checked);
	rt::event(70, clean, map.size());
}

// C17: handles are values; every branch of a history is independent.
void c17_branching()
{
	cfg.short_read = 150 * unsigned(rt::choose(rt::OPS, 5));
	const MagmaParams mp = gen_magma();
	const MagmaKey k = build(mp);
	const Cfb c = gen_cfb();
	const int what = int(rt::choose(rt::OPS, 6));
	// now and then the same few handles are used again and again
	const bool heavy = rt::chance(rt::OPS, 4);
	const int ops = heavy ? 300 + int(rt::choose(rt::OPS, 1200)) : 4 + int(rt::choose(rt::OPS, 22));
	if (heavy) rt::probe(rt::P_handle_worn);
	const auto choose_node = [heavy](size_t n) { return rt::choose(rt::OPS, heavy && n > 3 ? 3 : n); };
	if (what <= 1) {
		// sinks
		const bool ecb = rt::chance(rt::OPS, 250);
		struct Node { shared_ptr<const Sink> s; Bytes plain; };
		vector<Node> nodes;
		if (ecb) nodes.push_back({made<magma::ECBSink>(make_shared<MemSink>(), k.any), {}});
		else nodes.push_back({c.sink(make_shared<MemSink>(), k.any), {}});
		const auto check = [&](const Node &x) {
			shared_ptr<const Sink> f;
			{
				rt::Lib l;
				f = x.s->finalize();
			}
			expect(content_of(f), ecb ? ecb_enc(k.ref, x.plain) : c.enc(k.ref, x.plain),
				"branch-disturbed", "a branch of the written stream");
		};
		for (int i = 0; i < ops; i++) {
			const size_t at = choose_node(nodes.size());
			if (at + 1 < nodes.size()) rt::probe(rt::P_branch_from_old);
			if (rt::chance(rt::OPS, 300)) {
				check(nodes[at]);
				continue;
			}
			size_t n = rt::choose(rt::OPS, 28);
			if (ecb) n = n / 8 * 8;
			const Bytes b = gen_bytes(n);
			Node x;
			{
				rt::Lib l;
				x.s = nodes[at].s->write(b);
			}
			x.plain = nodes[at].plain;
			append(x.plain, b);
			nodes.push_back(x);
		}
		for (const auto &x : nodes) check(x);
		return;
	}
	if (what <= 3) {
		// sources
		const bool ecb = rt::chance(rt::OPS, 250);
		const size_t len = gen_size(200) / (ecb ? 8 : 1) * (ecb ? 8 : 1);
		const Bytes cipher = gen_bytes(len);
		const Bytes want = ecb ? ecb_dec(k.ref, cipher) : c.dec(k.ref, cipher);
		struct Node { shared_ptr<const Source> s; size_t off; };
		vector<Node> nodes;
		if (!ecb) nodes.push_back({c.source(mem_source(cipher), k.any), 0});
		else if (rt::choose(rt::OPS, 2)) nodes.push_back({made<magma::ECBSource>(mem_source(cipher), k.any), 0});
		else nodes.push_back({made<magma::ECBSource>(mem_source(cipher), make_container(mp)), 0});
		for (int i = 0; i < ops; i++) {
			const size_t at = choose_node(nodes.size());
			if (at + 1 < nodes.size()) rt::probe(rt::P_branch_from_old);
			const size_t n = (ecb ? 8 : 0) + rt::choose(rt::OPS, 24);
			Node x = nodes[at];
			Bytes b;
			{
				rt::Lib l;
				std::tie(b, x.s) = nodes[at].s->read(n);
			}
			if (b.size() > n) rt::violation("too-many-bytes", "read(%zu) returned %zu bytes", n, b.size());
			if (b.empty() && n > 0 && x.off < want.size())
				rt::violation("branch-disturbed", "a branch at byte %zu of %zu ended early", x.off, want.size());
			expect(b, slice(want, x.off, b.size()), "branch-disturbed", "a branch of the read stream");
			x.off += b.size();
			nodes.push_back(x);
		}
		return;
	}
	if (what == 4) {
		// iterators
		const KuzParams p = gen_kuz();
		const auto key = build(p);
		const size_t n = 1 + rt::choose(rt::OPS, 4);
		const auto b = gen_blocks(n);
		const uint64_t iv = gen_word();
		const bool ctr = rt::choose(rt::OPS, 2);
		shared_ptr<const kuz::Stream> st = made<kuz::StMemory>(words(b, false));
		if (ctr) st = made<kuz::StCTREncrypted>(st, key, iv);
		struct Node { shared_ptr<const kuz::Iterator> it; size_t i; };
		vector<Node> nodes;
		rt::Lib l;
		for (int i = 0; i < ops && (i < 12 || (heavy && !ctr)); i++) {
			if (nodes.empty() || rt::chance(rt::OPS, 200)) {
				nodes.push_back({st->iter(), 0});
				continue;
			}
			const size_t at = choose_node(nodes.size());
			if (at + 1 < nodes.size()) rt::probe(rt::P_branch_from_old);
			const Node x = nodes[at];
			if (!x.it) rt::violation("null-iterator", "no iterator at block %zu of %zu", x.i, n);
			const bool last = x.it->last();
			if (last != (x.i + 1 == n))
				rt::violation("branch-disturbed", "last() is wrong at block %zu of %zu", x.i, n);
			if (rt::choose(rt::OPS, 2) == 0) {
				const ref::U128 v = u(x.it->value());
				const ref::U128 w = ctr ? ref::kuz_ctr(p.ref, iv, x.i, b[x.i]) : b[x.i];
				if (v.lo != w.lo || v.hi != w.hi)
					rt::violation("branch-disturbed", "wrong value at block %zu of %zu", x.i, n);
			} else if (!last) {
				nodes.push_back({x.it->next(), x.i + 1});
			}
		}
		return;
	}
	// blocks and MACs: asking again gives the same answer
	Env e;
	e.mp = mp;
	e.mk = k;
	vector<Job> jobs;
	for (int i = 0; i < 4; i++) jobs.push_back(make_job(e, int(rt::choose(rt::OPS, J_KUZ_FIRST)), true, 120));
	for (int i = 0; i < ops; i++) {
		const Job &j = jobs[size_t(rt::choose(rt::OPS, jobs.size()))];
		Bytes got;
		{
			rt::Lib l;
			got = j.run();
		}
		expect(got, j.want, "branch-disturbed", j.name.c_str());
	}
}

}  // namespace sim
