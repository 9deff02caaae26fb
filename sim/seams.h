// Simulated environment behind the library's own interfaces, plus generators
// and assertions shared by the scenarios. Instrumented like the code under
// test; bookkeeping runs under rt::Quiet (no preemption, no race checking).
#pragma once
#include "ref.h"
#include "rt.h"
#include <array>
#include <cstring>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <system_error>
#include <type_traits>
#include <utility>
#include <vector>
#include <goost/Sink.h>
#include <goost/Source.h>
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ECBSink.h>
#include <goost/gost89/ECBSource.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/Key.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/kuznyechik/Stream.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/Container.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/Key.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/Sbox.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/SboxTwisted.h>

namespace sim {

namespace magma = goost::magma;
namespace gost89 = goost::gost89;
namespace kuz = goost::kuznyechik;
using goost::Sink;
using goost::Source;
using std::byte;
using std::make_shared;
using std::make_unique;
using std::pair;
using std::shared_ptr;
using std::unique_ptr;
using std::vector;
using Bytes = vector<byte>;

// ------------------------------------------------------------------ errors
// Errors that only the simulated environment throws; the id tells them apart.
struct SimErr { uint32_t id; };
struct SimErrPlain : std::exception, SimErr {
	const char *what() const noexcept override { return "simulated failure"; }
};
struct SimErrRuntime : std::runtime_error, SimErr {
	SimErrRuntime() : std::runtime_error("simulated i/o error") {}
};
struct SimErrSystem : std::system_error, SimErr {
	SimErrSystem() : std::system_error(EIO, std::generic_category()) {}
};
struct SimErrMemory : std::bad_alloc, SimErr {};   // e.g. a source out of memory
// A bare SimErr is an error of a kind unknown to the standard library.
// The simulated process dies here.
struct SimCrash { int dummy; };

struct Cfg {
	bool armed = true;          // environment faults may fire
	unsigned short_read = 0;    // permille per read
	unsigned read_error = 0;
	unsigned write_error = 0;
	unsigned key_error = 0;
	unsigned sbox_error = 0;
	unsigned block_error = 0;
	unsigned stream_error = 0;
	unsigned storm = 1;         // multiplies all error rates
	bool plain_texts = false;   // keys read from their text at every use, too
	int ownership = 0;          // how the user owns objects of the library
	bool self_handles = false;  // streams with state of their own return themselves as successor
	void (*reenter)() = nullptr;  // run from inside call-backs of the environment
	void (*destroyed)() = nullptr; // run when an object of the environment is destroyed
	uint32_t last_error[8] = {};  // per task: id of the most recently thrown error
};
extern Cfg cfg;

// An object of the library as users own them: shared, a copy of another one that
// is gone, or part of something else (or of the stack) and not shared at all.
template <class T, class... A> shared_ptr<T> made(A &&...a)
{
	switch (cfg.ownership) {
	case 1:
		if constexpr (std::is_copy_constructible<T>::value) {
			const auto from = make_shared<T>(std::forward<A>(a)...);
			return make_shared<T>(*from);
		}
		break;
	case 2:
		// the iterators of StMemory share its ownership, so it has to be shared
		if constexpr (!std::is_same<T, kuz::StMemory>::value) {
		struct Holder {
			explicit Holder(A &&...x) : t(std::forward<A>(x)...) {}
			T t;
		};
		const auto h = make_shared<Holder>(std::forward<A>(a)...);
		return shared_ptr<T>(h, &h->t);
		}
	}
	return make_shared<T>(std::forward<A>(a)...);
}

// The same for what the library takes by unique_ptr
template <class T, class... A> std::unique_ptr<T> made_unique(A &&...a)
{
	if constexpr (std::is_copy_constructible<T>::value) {
		if (cfg.ownership == 1) {
			const auto from = std::make_unique<T>(std::forward<A>(a)...);
			return std::make_unique<T>(*from);
		}
	}
	return std::make_unique<T>(std::forward<A>(a)...);
}

// Draws the fault; throws if it fires.
void maybe_throw(rt::Fault kind, unsigned permille);

// ---------------------------------------------------------------- outcomes
enum Result { OK, SIM_ERROR, BAD_ALLOC, REFUSED, CRASHED };
struct Outcome { Result r; uint32_t id; };
template <class F> Outcome attempt(F f)
{
	try {
		rt::Lib lib;
		f();
		return {OK, 0};
	} catch (const SimErr &e) {
		return {SIM_ERROR, e.id};
	} catch (const SimCrash &) {
		return {CRASHED, 0};
	} catch (const std::bad_alloc &) {
		return {BAD_ALLOC, 0};
	} catch (...) {
		return {REFUSED, 0};
	}
}
const char *name(Result r);

// -------------------------------------------------------------- generators
size_t gen_size(size_t max);                 // heavy-tailed length (OPS)
size_t gen_boundary(uint64_t r, unsigned from, size_t max); // next to a power of two (no choice)
// 4%: the user's fixed buffer of 16 to 4096 bytes or so, else 0 (OPS)
size_t gen_buffer();
size_t gen_length(size_t usual, size_t buffer);   // some buffers full, and a bit
size_t gen_length(size_t usual);            // gen_size, rarely much longer (OPS)
size_t gen_piece(size_t max);     // 0..max split size (OPS)
size_t gen_huge();                // a request far beyond the stream (OPS)
Bytes gen_bytes(size_t n);                   // patterned contents (DATA)
uint64_t gen_word();                         // interesting 64-bit value (DATA)
uint64_t fnv(const void *p, size_t n);
inline uint64_t fnv(const Bytes &b) { return fnv(b.data(), b.size()); }
std::string hex(const void *p, size_t n);
std::string hex(const Bytes &b);
inline const uint8_t *u8(const Bytes &b) { return reinterpret_cast<const uint8_t *>(b.data()); }
inline uint8_t *u8(Bytes &b) { return reinterpret_cast<uint8_t *>(b.data()); }
void expect(const Bytes &got, const Bytes &want, const char *cls, const char *what);
void expect_prefix(const Bytes &got, const Bytes &of, const char *cls, const char *what);
Bytes slice(const Bytes &b, size_t from, size_t n);
void append(Bytes &to, const Bytes &b);

// Every object of the environment belongs to the session that made it, and is
// counted while it lives.
extern int tag[8];                // per task: the session at work, 0 = none
int live_with(int tag);
int new_tag();
struct Tracked {
	const int owner;
	Tracked();
	Tracked(const Tracked &);
	~Tracked();
};

// -------------------------------------------------------------------- keys
enum KeyKind { K_STRING, K_STRING_SBOX, K_NATIVE, K_PROVIDER, K_CACHED_PROVIDER, K_WRAPPED, K_TEXT, K_CACHED_WORDS, K_NKINDS };
struct MagmaKey {
	ref::Magma ref;
	shared_ptr<const magma::LazyKey> key;
	shared_ptr<const magma::Key> any;      // key, or a user-written Key with the same function
	int kind;
};
// Key parameters (independent of the object that is built from them).
struct MagmaParams {
	ref::Magma ref;
	int kind, sbox;
	bool own;                    // streams get a user-written Key
	uint8_t packed[64];          // byte-packed sbox
	ref::Magma kek;              // K_WRAPPED: the key under which the words are kept
	uint64_t wrapped[4];
};
MagmaParams gen_magma();
MagmaParams similar(const MagmaParams &from);
void pack(MagmaParams &p);      // packed from ref.s
// faulty: which environment objects may sit inside the key
MagmaKey build(const MagmaParams &p);
MagmaKey gen_magma_key();
vector<uint8_t> packed_sbox(const MagmaParams &p);
vector<vector<int>> nibble_rows(const MagmaParams &p);
shared_ptr<const magma::Sbox> make_sbox(const MagmaParams &p);
std::string key_text(const uint32_t k[8], int style);

class SimKeyData final : public magma::KeyData, private Tracked {
public:
	explicit SimKeyData(const uint32_t k[8]);
	uint32_t key(int index) const override;
private:
	std::array<uint32_t, 8> k;
};
// Key words kept encrypted under another key, unwrapped by the library itself.
class SimWrappedKeyData final : public magma::KeyData, private Tracked {
public:
	SimWrappedKeyData(const uint64_t w[4], const shared_ptr<const magma::LazyKey> &kek);
	uint32_t key(int index) const override;
private:
	std::array<uint64_t, 4> w;
	const shared_ptr<const magma::LazyKey> kek;
};
class SimSbox final : public magma::Sbox, private Tracked {       // includes the <<<11 rotation
public:
	explicit SimSbox(const ref::Magma &m);
	uint32_t transform(uint32_t v) const override;
private:
	ref::Magma m;
};
class SimTab final : public magma::SboxByte::Tab, private Tracked {
public:
	SimTab(const ref::Magma &m, int offset);
	uint32_t translate(int index) const override;
private:
	uint8_t t[256];
};
class SimKey final : public magma::Key, private Tracked {          // a user-written Key
public:
	explicit SimKey(const ref::Magma &m);
	uint32_t transform(uint32_t v, int index) const override;
private:
	ref::Magma m;
};
class SimContainer final : public magma::Container, private Tracked {
public:
	Bytes k, m, s;
	Bytes key() const override;
	Bytes mask() const override;
	Bytes sbox() const override;
};
shared_ptr<SimContainer> make_container(const MagmaParams &p);

struct KuzParams {
	ref::U128 hi, lo;
	ref::Kuz ref;
	int kind;
	ref::U128 kek[2], wrapped[2];   // kind 3: halves kept encrypted under another key
};
KuzParams gen_kuz();
KuzParams similar(const KuzParams &from);
shared_ptr<const kuz::Key> build(const KuzParams &p);
std::string kuz_text(const KuzParams &p, int style);
class SimKuzData final : public kuz::Key::Data, private Tracked {
public:
	SimKuzData(ref::U128 hi, ref::U128 lo) : hi(hi), lo(lo) {}
	shared_ptr<const kuz::Block> low() const override;
	shared_ptr<const kuz::Block> high() const override;
private:
	ref::U128 hi, lo;
};
class SimWrappedKuzData final : public kuz::Key::Data, private Tracked {
public:
	SimWrappedKuzData(const ref::U128 w[2], const shared_ptr<const kuz::Key> &kek) : w{w[0], w[1]}, kek(kek) {}
	shared_ptr<const kuz::Block> low() const override;
	shared_ptr<const kuz::Block> high() const override;
private:
	const ref::U128 w[2];
	const shared_ptr<const kuz::Key> kek;
};
class SimKuzBlock final : public kuz::Block, private Tracked {
public:
	explicit SimKuzBlock(ref::U128 v) : v(v) {}
	pair<uint64_t, uint64_t> value() const override;
private:
	ref::U128 v;
};
class SimMagmaBlock final : public magma::Block, private Tracked {
public:
	explicit SimMagmaBlock(uint64_t v) : v(v) {}
	pair<uint32_t, uint32_t> value() const override;
private:
	uint64_t v;
};

// ----------------------------------------------------------------- streams
// Persistent sink: a handle is a value, writing makes a new one.
class MemSink final : public Sink, private Tracked, public std::enable_shared_from_this<MemSink> {
public:
	explicit MemSink(const Bytes &content = {}) : content(content) {}
	shared_ptr<const Sink> write(const Bytes &data) const override;
	shared_ptr<const Sink> finalize() const override;
	const Bytes content;
};
const Bytes &content_of(const shared_ptr<const Sink> &s);

// Append-only device with a durable byte array; handles share it.
struct Device {
	Bytes durable;
	uint64_t writes = 0;
	uint64_t crash_at = 0;       // crash during the nth write from now (0 = never)
	bool torn = false;           // the crashing write persists only a part
	uint64_t torn_bytes = 0;
	bool dead = false;
	uint64_t latency = 0;
};
class DevSink final : public Sink, private Tracked, public std::enable_shared_from_this<DevSink> {
public:
	explicit DevSink(Device *d) : d(d) {}
	shared_ptr<const Sink> write(const Bytes &data) const override;
	shared_ptr<const Sink> finalize() const override;
private:
	Device *const d;
};

// Persistent source over an immutable byte array.
class MemSource final : public Source, private Tracked, public std::enable_shared_from_this<MemSource> {
public:
	MemSource(const shared_ptr<const Bytes> &data, size_t off) : data(data), off(off) {}
	pair<Bytes, shared_ptr<const Source>> read(size_t size) const override;
	const shared_ptr<const Bytes> data;
	const size_t off;
};
shared_ptr<const Source> mem_source(const Bytes &b);

// File-like source: all handles share one cursor; the file may grow.
struct File { Bytes data; size_t pos = 0; uint64_t reads = 0; };
class FileSource final : public Source, private Tracked, public std::enable_shared_from_this<FileSource> {
public:
	explicit FileSource(File *f) : f(f) {}
	pair<Bytes, shared_ptr<const Source>> read(size_t size) const override;
private:
	File *const f;
};

// Bounded channel between two tasks.
struct Channel {
	Bytes queue;                 // in flight
	size_t capacity = 8;
	bool closed = false;
	uint64_t sent = 0, received = 0;
	Bytes wire;                  // everything ever sent
};
class ChannelSink final : public Sink, private Tracked, public std::enable_shared_from_this<ChannelSink> {
public:
	explicit ChannelSink(Channel *c) : c(c) {}
	shared_ptr<const Sink> write(const Bytes &data) const override;
	shared_ptr<const Sink> finalize() const override;
private:
	Channel *const c;
};
class ChannelSource final : public Source, private Tracked, public std::enable_shared_from_this<ChannelSource> {
public:
	explicit ChannelSource(Channel *c) : c(c) {}
	pair<Bytes, shared_ptr<const Source>> read(size_t size) const override;
private:
	Channel *const c;
};
void close(Channel &c);

// Kuznyechik streams
class SimStream final : public kuz::Stream, private Tracked {
public:
	SimStream(const vector<ref::U128> &b, size_t last_size);
	shared_ptr<const kuz::Iterator> iter() const override;
private:
	shared_ptr<const vector<ref::U128>> b;
	size_t last_size;
};

// CFB in its two register widths behind one face
struct Cfb {
	int m;                       // 1 = GOST 28147-89, 2 = R 34.13
	uint64_t iv[2];
	shared_ptr<const Sink> sink(const shared_ptr<const Sink> &s,
		const shared_ptr<const magma::Key> &k) const;
	shared_ptr<const Sink> sink(const shared_ptr<const Sink> &s,
		const shared_ptr<const magma::Key> &k, const Bytes &pending) const;
	shared_ptr<const Source> source(const shared_ptr<const Source> &s,
		const shared_ptr<const magma::Key> &k) const;
	shared_ptr<const Source> source(const shared_ptr<const Source> &s,
		const shared_ptr<const magma::Key> &k, const Bytes &pending) const;
	Bytes enc(const ref::Magma &k, const Bytes &b) const;
	Bytes dec(const ref::Magma &k, const Bytes &b) const;
	// the state after `n` bytes (n % 8 == 0) of ciphertext c
	Cfb after(const Bytes &c, size_t n) const;
};
Cfb gen_cfb();
Bytes ecb_enc(const ref::Magma &k, const Bytes &b);
Bytes ecb_dec(const ref::Magma &k, const Bytes &b);
ref::U128 u(const pair<uint64_t, uint64_t> &v);
uint64_t u(const pair<uint32_t, uint32_t> &v);
// keeps the first `size` bytes, the rest zero
ref::U128 mask(ref::U128 v, size_t size);
Bytes to_bytes(ref::U128 v);
Bytes to_bytes(uint64_t v);
// Drains a source with generated request sizes; min_req as given.
Bytes drain(shared_ptr<const Source> s, size_t min_req, size_t limit);

}  // namespace sim
