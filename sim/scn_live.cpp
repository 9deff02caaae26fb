// Scenarios about parties that depend on each other's progress.
#include "jobs.h"
#include "scn.h"

namespace sim {

namespace {

struct Layer { int type; Cfb cfb; MagmaKey key; };   // type 0 CFB, 1 ECB

vector<Layer> gen_layers(const MagmaKey &shared, unsigned max)
{
	vector<Layer> v;
	const int n = 1 + int(rt::choose(rt::OPS, max));
	if (n > 1) rt::probe(rt::P_nested_streams);
	for (int j = 0; j < n; j++) {
		Layer y;
		y.type = rt::chance(rt::OPS, 250) ? 1 : 0;
		y.cfb = gen_cfb();
		y.key = rt::choose(rt::OPS, 2) ? gen_magma_key() : shared;
		v.push_back(y);
	}
	return v;
}
shared_ptr<const Sink> make_sink(const vector<Layer> &v, shared_ptr<const Sink> s)
{
	for (size_t i = v.size(); i-- > 0; ) {
		rt::Lib l;
		if (v[i].type == 0) s = v[i].cfb.sink(s, v[i].key.any);
		else s = made<magma::ECBSink>(s, v[i].key.any);
	}
	return s;
}
shared_ptr<const Source> make_source(const vector<Layer> &v, shared_ptr<const Source> s)
{
	for (size_t i = v.size(); i-- > 0; ) {
		rt::Lib l;
		if (v[i].type == 0) s = v[i].cfb.source(s, v[i].key.any);
		else s = made<magma::ECBSource>(s, v[i].key.any);
	}
	return s;
}
Bytes encrypt(const vector<Layer> &v, Bytes b)
{
	for (const Layer &y : v) b = y.type == 0 ? y.cfb.enc(y.key.ref, b) : ecb_enc(y.key.ref, b);
	return b;
}

// ------------------------------------------------------------- C18 dialogue
// One direction of a conversation: consecutive sessions (a fresh key and
// register on the same channel), each of several messages of whole blocks.
struct Session { vector<Layer> layers; vector<Bytes> messages; };
struct Dialogue {
	vector<Session> dir[2];          // party i speaks on dir[i]
	Channel ch[2];
	size_t turns = 0;
	size_t heard[2] = {};
};

struct Speaker {
	Dialogue &d;
	const int side;
	size_t session = 0, message = 0;
	shared_ptr<const Sink> sink;
	size_t wire = 0;                 // bytes that must be on the wire

	void speak()
	{
		const Session &e = d.dir[side][session];
		if (!sink) sink = make_sink(e.layers, make_shared<ChannelSink>(&d.ch[side]));
		const Bytes &m = e.messages[message];
		const size_t unit = e.layers[0].type ? 8 : 1;
		for (size_t off = 0; off < m.size(); ) {
			size_t n = (gen_piece(m.size() - off) + unit - 1) / unit * unit;
			if (n == 0) n = unit;
			const Bytes part = slice(m, off, n);
			rt::Lib l;
			sink = sink->write(part);
			off += part.size();
		}
		wire += m.size();
		{
			rt::Quiet q;
			if (d.ch[side].wire.size() != wire)
				rt::violation("message-held-back", "%zu bytes were written, %zu passed on", wire, d.ch[side].wire.size());
		}
		if (++message == e.messages.size()) {
			sink.reset();            // the next session starts afresh
			message = 0;
			session++;
		}
	}
};
struct Listener {
	Dialogue &d;
	const int side;                  // listens to the other side's direction
	size_t session = 0, message = 0;
	shared_ptr<const Source> source;
	size_t taken = 0;

	void listen()
	{
		Channel &c = d.ch[1 - side];
		const Session &e = d.dir[1 - side][session];
		if (!source) source = make_source(e.layers, make_shared<ChannelSource>(&c));
		const Bytes &m = e.messages[message];
		const size_t unit = e.layers[0].type ? 8 : 1;
		Bytes got;
		while (got.size() < m.size()) {
			// never asks for more than the rest of this message
			size_t n = rt::choose(rt::OPS, 2) ? m.size() - got.size() : gen_piece(m.size() - got.size());
			n = (n + unit - 1) / unit * unit;
			if (n == 0) n = unit;
			const size_t asked = got.size() + n;
			Bytes b;
			{
				rt::Lib l;
				std::tie(b, source) = source->read(n);
			}
			if (b.size() > n) rt::violation("too-many-bytes", "read(%zu) returned %zu bytes", n, b.size());
			if (b.empty()) rt::violation("early-end", "read(%zu) ended inside a message", n);
			append(got, b);
			expect_prefix(got, m, "wrong-plaintext", "message so far");
			rt::Quiet q;
			// whole blocks that hold what was asked for, and no more
			if (c.received > taken + (asked + 7) / 8 * 8)
				rt::violation("read-ahead", "%zu bytes asked for took %llu bytes from the channel", asked,
					(unsigned long long)(c.received - taken));
		}
		taken += m.size();
		d.heard[side]++;
		if (++message == e.messages.size()) {
			source.reset();
			message = 0;
			session++;
		}
	}
};

void dialogue_task(void *arg, int id)
{
	Dialogue &d = *static_cast<Dialogue *>(arg);
	const int side = id - 1;
	Speaker out{d, side, 0, 0, {}, 0};
	Listener in{d, side, 0, 0, {}, 0};
	for (size_t t = 0; t < d.turns; t++) {
		if (side == 0) {
			out.speak();
			in.listen();
		} else {
			in.listen();
			out.speak();
		}
	}
}

// --------------------------------------------------------------- C19 follow
// A file that one task appends encrypted blocks to while others follow it.
class AppendSink final : public Sink {
public:
	AppendSink(Bytes *f, uint64_t latency) : f(f), latency(latency) {}
	shared_ptr<const Sink> write(const Bytes &data) const override
	{
		rt::Seam s;
		rt::seam_point();
		if (latency && rt::chance(rt::FAULT, 200)) {
			rt::fired(rt::F_latency);
			rt::sleep(1 + rt::choose(rt::FAULT, latency));
		}
		rt::Quiet q;
		append(*f, data);
		rt::log("file grows to %zu bytes", f->size());
		return make_shared<AppendSink>(f, latency);
	}
	shared_ptr<const Sink> finalize() const override
	{
		rt::Seam s;
		return make_shared<AppendSink>(f, latency);
	}
private:
	Bytes *const f;
	const uint64_t latency;
};
// Every handle has its own position, all see the file as it is now.
class FollowSource final : public Source {
public:
	FollowSource(const Bytes *f, size_t pos) : f(f), pos(pos) {}
	pair<Bytes, shared_ptr<const Source>> read(size_t size) const override
	{
		rt::Seam s;
		rt::seam_point();
		rt::Quiet q;
		size_t n = std::min(size, f->size() - pos);
		if (n > 1 && rt::chance(rt::FAULT, cfg.short_read)) {
			rt::fired(rt::F_short_read);
			n = 1 + rt::choose(rt::FAULT, n - 1);
		}
		Bytes out(f->begin() + pos, f->begin() + pos + n);
		rt::event(9, size, n, pos);
		rt::log("follow[%zu].read(%zu) -> %zu bytes", pos, size, n);
		return {out, make_shared<FollowSource>(f, pos + n)};
	}
private:
	const Bytes *const f;
	const size_t pos;
};
struct Follow {
	vector<Layer> layers;
	Bytes plain, wire, file;
	vector<size_t> pieces;
	uint64_t latency = 0;
	bool finished = false;
	int readers = 1;
	bool done[3] = {};
};

void follow_writer(Follow &f)
{
	shared_ptr<const Sink> s = make_sink(f.layers, make_shared<AppendSink>(&f.file, f.latency));
	size_t off = 0;
	for (const size_t n : f.pieces) {
		const Bytes b = slice(f.plain, off, n);
		if (rt::chance(rt::FAULT, 100)) {
			rt::fired(rt::F_stall);
			rt::sleep(1 + rt::choose(rt::FAULT, 100));
		}
		{
			rt::Lib l;
			s = s->write(b);
		}
		off += n;
	}
	for (size_t i = 0; i < f.layers.size(); i++) {
		rt::Lib l;
		s = s->finalize();
	}
	rt::Quiet q;
	f.finished = true;
	expect(f.file, f.wire, "wrong-ciphertext", "the finished file");
}
void follow_reader(Follow &f, int index)
{
	shared_ptr<const Source> s = make_source(f.layers, make_shared<FollowSource>(&f.file, 0));
	const size_t unit = f.layers[0].type ? 8 : 1;
	Bytes got;
	for (;;) {
		bool finished;
		size_t there;
		{
			rt::Quiet q;
			finished = f.finished;
			there = f.file.size();
		}
		size_t n = rt::chance(rt::OPS, 15) ? gen_huge() : unit + gen_piece(56);
		Bytes b;
		{
			rt::Lib l;
			std::tie(b, s) = s->read(n);
		}
		if (!s) rt::violation("null-handle", "read() returned no successor");
		if (b.size() > n) rt::violation("too-many-bytes", "read(%zu) returned %zu bytes", n, b.size());
		append(got, b);
		expect_prefix(got, f.plain, "wrong-plaintext", "bytes read so far");
		if (!b.empty()) continue;
		if (got.size() < there / 8 * 8)
			rt::violation("early-end", "nothing returned at %zu bytes although %zu bytes were there", got.size(), there);
		if (finished) break;
		rt::probe(rt::P_source_grew_after_end);
		rt::sleep(1 + rt::choose(rt::FAULT, 20));
	}
	expect(got, f.plain, "wrong-plaintext", "bytes read from the finished file");
	f.done[index] = true;
}
void follow_task(void *arg, int id)
{
	Follow &f = *static_cast<Follow *>(arg);
	if (id == 1) follow_writer(f); else follow_reader(f, id - 2);
}

}  // namespace

// C18: two parties take turns; each waits for the other's message.
void c18_dialogue()
{
	rt::sched_config();
	cfg.short_read = 150 * unsigned(rt::choose(rt::OPS, 6));
	Dialogue *d = new Dialogue;
	d->turns = 1 + rt::choose(rt::OPS, 6);
	const MagmaKey shared = gen_magma_key();
	for (int i = 0; i < 2; i++) {
		size_t left = d->turns;
		Bytes wire;
		while (left) {
			Session e;
			e.layers = gen_layers(shared, 2);
			const size_t n = 1 + rt::choose(rt::OPS, left);
			for (size_t j = 0; j < n; j++) e.messages.push_back(gen_bytes(8 * (1 + gen_size(12))));
			left -= n;
			d->dir[i].push_back(e);
		}
		d->ch[i].capacity = 1 + rt::choose(rt::OPS, 40);
	}
	rt::parallel(2, dialogue_task, d);
	for (int i = 0; i < 2; i++)
		if (d->heard[i] != d->turns) rt::violation("incomplete", "party %d heard %zu of %zu messages", i, d->heard[i], d->turns);
	for (int i = 0; i < 2; i++) {
		Bytes wire;
		for (const Session &e : d->dir[i]) {
			Bytes all;
			for (const Bytes &m : e.messages) append(all, m);
			append(wire, encrypt(e.layers, all));
		}
		expect(d->ch[i].wire, wire, "wrong-ciphertext", "the conversation on the wire");
	}
	delete d;
}

// C19: readers follow a growing encrypted file.
void c19_follow()
{
	rt::sched_config();
	cfg.short_read = 150 * unsigned(rt::choose(rt::OPS, 6));
	Follow *f = new Follow;
	f->layers = gen_layers(gen_magma_key(), 2);
	bool ecb = false;
	for (const Layer &y : f->layers) ecb = ecb || y.type;
	f->plain = gen_bytes(gen_size(300) / (ecb ? 8 : 1) * (ecb ? 8 : 1));
	f->wire = encrypt(f->layers, f->plain);
	f->pieces = gen_pieces(f->plain.size(), f->layers[0].type ? 8 : 1);
	f->latency = rt::choose(rt::OPS, 60);
	f->readers = 1 + int(rt::choose(rt::OPS, 3));
	if (f->plain.size() % 8) rt::probe(rt::P_partial_last_block);
	if (f->readers > 1) rt::probe(rt::P_concurrent_same_object);
	f->file.reserve(400);
	rt::parallel(1 + f->readers, follow_task, f);
	for (int i = 0; i < f->readers; i++)
		if (!f->done[i]) rt::violation("incomplete", "a reader never finished");
	delete f;
}

}  // namespace sim
