// Deterministic simulation runtime. Compiled WITHOUT instrumentation; the code
// under test and the scenarios are compiled with clang -fsanitize=thread, and
// this file supplies that instrumentation's run-time interface instead of the
// ThreadSanitizer library. So every shared memory access, atomic operation,
// lock, allocation and function entry of the code under test passes through
// here, where a single choice sequence decides what happens next.
//
// No C++ library templates are used here on purpose: they would be merged by
// the linker with the instrumented instantiations.
#include "rt.h"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <sched.h>
#include <sys/random.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <elf.h>
#include <link.h>
#include <vector>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace {

// ---------------------------------------------------------------- sizes
constexpr int MAXT = 5;                     // scenario task + 4 parallel tasks
constexpr uint64_t CAP = 1 << 16;           // recorded choices per stream
constexpr uintptr_t ARENA = 0x500000000000ull;
constexpr uint64_t ARENA_SIZE = 1ull << 30;
uint64_t step_limit = 300ull * 1000 * 1000;
constexpr uint64_t FAIR_LIMIT = 400 * 1000; // consecutive steps before a forced switch

enum Status { ST_NONE = 0, ST_OK = 1, ST_VIOLATION = 2, ST_INCONCLUSIVE = 3 };

struct Shared {
	volatile int status;
	char cls[96];
	char msg[6000];
	uint64_t hist_hash;
	uint64_t sched_hash;
	uint64_t shape_hash;
	uint64_t run_steps, run_fired, run_switches, run_calls;
	uint64_t n[rt::NSTREAMS];
	uint64_t v[rt::NSTREAMS][CAP];
	// batch totals
	uint64_t faults[rt::F_COUNT];
	uint64_t probes[rt::P_COUNT];
	uint64_t switches, steps, ticks, accesses_checked, max_tasks;
};
Shared *sh;

// -------------------------------------------------------------- choices
bool g_replay;
bool g_verbose;
struct Rng { uint64_t s[4]; };
Rng rngs[rt::NSTREAMS];
uint64_t *in_v[rt::NSTREAMS];
uint64_t in_n[rt::NSTREAMS];
uint64_t pos_[rt::NSTREAMS];

uint64_t splitmix(uint64_t &x)
{
	uint64_t z = (x += 0x9e3779b97f4a7c15ull);
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t next_bits(Rng &r)
{
	uint64_t *s = r.s;
	const uint64_t res = rotl(s[1] * 5, 7) * 9;
	const uint64_t t = s[1] << 17;
	s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3];
	s[2] ^= t; s[3] = rotl(s[3], 45);
	return res;
}
void seed_all(uint64_t seed)
{
	for (int i = 0; i < rt::NSTREAMS; i++) {
		uint64_t x = seed ^ (0x1234567ull * (i + 1) << 20);
		for (auto &w : rngs[i].s) w = splitmix(x);
	}
}
uint64_t hist = 0xcbf29ce484222325ull, schedh = 0xcbf29ce484222325ull, shapeh = 0xcbf29ce484222325ull;
void mix(uint64_t &h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0x100000001b3ull;
	h ^= h >> 29;
}
uint64_t record(int stream, uint64_t value)
{
	// what was done, when and with which faults, but not with which data
	if (stream != rt::DATA) mix(shapeh, value * 4 + uint64_t(stream));
	const uint64_t n = sh->n[stream];
	if (n >= CAP) return 0;
	sh->v[stream][n] = value;
	sh->n[stream] = n + 1;
	return value;
}

// ---------------------------------------------------------------- tasks
struct VC { uint32_t c[MAXT]; };
enum TState { T_UNUSED, T_RUNNABLE, T_BLOCKED, T_SLEEPING, T_DONE };
struct Task {
	int id;
	volatile int turn;           // futex word
	TState state;
	const void *waiting;
	uint64_t wake_at;
	VC vc;
	VC acq_pend, rel_fence;
	uintptr_t stk_lo, stk_sz;
	uintptr_t min_sp, base_sp;
	int inlib;
	int ignore;
	uint64_t run_len;
	pthread_t th;
	void *altstack;
};
Task tasks[MAXT];
__thread Task *me;

struct {
	bool par;
	int ntasks;                  // parallel tasks of the current section
	int alive;
	uint64_t steps;
	uint64_t work;               // accesses, counting each 16 bytes of a block operation
	uint64_t budget;             // accesses until next preemption; 0 = never
	uint64_t switches;
	uint64_t ticks;
	uint64_t clock_step;         // the environment takes this long, in ms, to answer a call
	uint64_t clock_passed;
	int64_t clock_skew;          // the wall clock against the steady one, in ms
	int64_t clock_back;          // the wall clock is set back by this at every answer
	uint64_t random;             // state of the simulated sources of randomness
	int errno_left;              // what the environment leaves behind in errno
	int mode;
	uint64_t mean_gap;
	unsigned seam_permille;
	int preempt_left;            // -1 = unlimited
	uint64_t stack_size;
	uint64_t fired_total;
	uint64_t calls;              // entries into the code under test
	rt::TaskFn fn;
	void *arg;
} g;

long raw_futex(volatile int *a, int op, int v)
{
	return syscall(SYS_futex, a, op, v, nullptr, nullptr, 0);
}

[[noreturn]] void finish(Status st)
{
	sh->hist_hash = hist;
	sh->sched_hash = schedh;
	sh->shape_hash = shapeh;
	sh->run_calls = g.calls;
	sh->run_steps = g.steps;
	sh->run_fired = g.fired_total;
	sh->run_switches = g.switches;
	sh->steps += g.steps;
	sh->switches += g.switches;
	sh->ticks += g.ticks;
	sh->status = st;
	_exit(st == ST_OK ? 0 : 1);
}

[[noreturn]] void vviolation(const char *cls, const char *fmt, va_list ap)
{
	snprintf(sh->cls, sizeof sh->cls, "%s", cls);
	const int k = snprintf(sh->msg, sizeof sh->msg, "[task %d, step %llu] ",
		me ? me->id : -1, (unsigned long long)g.steps);
	vsnprintf(sh->msg + k, sizeof sh->msg - k, fmt, ap);
	if (g_verbose) dprintf(2, "VIOLATION(%s): %s\n", sh->cls, sh->msg);
	finish(ST_VIOLATION);
}

// switch to task t; caller's state is already set
void switch_to(Task *t)
{
	Task *self = me;
	if (t == self) return;
	g.switches++;
	mix(schedh, (uint64_t(t->id) << 40) ^ g.steps);
	t->run_len = 0;
	__atomic_store_n(&self->turn, 0, __ATOMIC_SEQ_CST);
	__atomic_store_n(&t->turn, 1, __ATOMIC_SEQ_CST);
	raw_futex(&t->turn, FUTEX_WAKE_PRIVATE, 1);
	if (self->state == T_DONE) return;
	while (__atomic_load_n(&self->turn, __ATOMIC_SEQ_CST) == 0) {
		raw_futex(&self->turn, FUTEX_WAIT_PRIVATE, 0);
	}
}

int runnable(int *out, const Task *except)
{
	int n = 0;
	for (int i = 0; i < MAXT; i++) {
		if (&tasks[i] != except && tasks[i].state == T_RUNNABLE) out[n++] = i;
	}
	return n;
}

void draw_gap()
{
	if (g.mode == 0 || g.preempt_left == 0) {
		g.budget = 0;
		return;
	}
	uint64_t gap = 0;
	if (!g_replay) {
		const uint64_t r = next_bits(rngs[rt::SCHED]);
		if (g.mode == 2) {
			// log-uniform gap: few preemptions anywhere in the run
			const int sh_ = 1 + (r % 16);
			gap = 1 + (r >> 20) % (1ull << sh_);
		} else {
			// roughly geometric around mean_gap
			gap = 1 + (r >> 8) % (2 * g.mean_gap);
		}
	}
	g.budget = rt::propose(rt::SCHED, gap, 1 << 20);
}

// pick any runnable task (current one cannot continue)
void reschedule()
{
	int r[MAXT];
	for (;;) {
		int n = runnable(r, nullptr);
		if (n > 0) {
			const int i = n == 1 ? 0 : int(rt::choose(rt::SCHED, n));
			switch_to(&tasks[r[i]]);
			return;
		}
		uint64_t best = ~0ull;
		for (auto &t : tasks) if (t.state == T_SLEEPING && t.wake_at < best) best = t.wake_at;
		if (best == ~0ull) {
			rt::violation("deadlock", "no task can make progress");
		}
		if (best > g.ticks) g.ticks = best;
		for (auto &t : tasks) {
			if (t.state == T_SLEEPING && t.wake_at <= g.ticks) t.state = T_RUNNABLE;
		}
	}
}

void preempt(bool forced)
{
	int r[MAXT];
	const int n = runnable(r, me);
	if (n == 0) return;
	int i = 0;
	if (forced) {
		while (i < n && r[i] < me->id) i++;
		if (i == n) i = 0;
	} else {
		i = n == 1 ? 0 : int(rt::choose(rt::SCHED, n));
	}
	switch_to(&tasks[r[i]]);
}

inline void step()
{
	Task *t = me;
	if (++g.steps > step_limit) rt::violation("livelock", "step limit exceeded");
	if (!g.par) return;
	if (++t->run_len > FAIR_LIMIT) {
		t->run_len = 0;
		preempt(true);
		return;
	}
	if (g.budget && --g.budget == 0) {
		if (g.preempt_left > 0) g.preempt_left--;
		rt::fired(rt::F_preempt_access);
		draw_gap();
		preempt(false);
	}
}

void sync_point()
{
	if (!me || !g.par || me->ignore || g.alive < 2) return;
	if (g.seam_permille && rt::chance(rt::SCHED, g.seam_permille)) {
		rt::fired(rt::F_preempt_seam);
		preempt(false);
	}
}

void block_on(const void *what)
{
	me->state = T_BLOCKED;
	me->waiting = what;
	reschedule();
}
void wake(const void *what)
{
	for (auto &t : tasks) {
		if (t.state == T_BLOCKED && t.waiting == what) {
			t.state = T_RUNNABLE;
			t.waiting = nullptr;
		}
	}
}

// -------------------------------------------------------- happens-before
void join(VC &a, const VC &b)
{
	for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
struct Gran {
	uint32_t w[MAXT], r[MAXT], aw[MAXT], ar[MAXT];
	uint8_t wm[MAXT], rm[MAXT], awm[MAXT], arm[MAXT];
	uint32_t sync[MAXT];
	uint32_t used;
};
Gran *shadow;                       // one per 8 arena bytes
struct GlobGran { uintptr_t key; Gran g; };
constexpr int GLOBN = 1 << 13;
GlobGran globals_[GLOBN];
extern "C" char __data_start, _end;

Gran *gran_of(uintptr_t a)
{
	if (a - ARENA < ARENA_SIZE) return &shadow[(a - ARENA) >> 3];
	if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end) {
		const uintptr_t k = a >> 3;
		for (unsigned i = 0, h = (k * 0x9e3779b1u) % GLOBN; i < 64; i++, h = (h + 1) % GLOBN) {
			if (globals_[h].key == k) return &globals_[h].g;
			if (globals_[h].key == 0) { globals_[h].key = k; return &globals_[h].g; }
		}
	}
	return nullptr;
}

struct Blk { uintptr_t start; uint64_t size; uint64_t serial; uint32_t granules; uint8_t state, mark; };
enum { B_FREE = 0, B_LIVE = 1, B_DEAD = 2 };
uint32_t *gtab;                     // 16-byte granule -> block number
Blk *blks;

void describe(uintptr_t a, char *buf, size_t n)
{
	if (a - ARENA < ARENA_SIZE) {
		const uint32_t b = gtab[(a - ARENA) >> 4];
		if (b) {
			snprintf(buf, n, "offset %lld of a %llu-byte %s heap block",
				(long long)(a - blks[b].start), (unsigned long long)blks[b].size,
				blks[b].state == B_LIVE ? "live" : "freed");
			return;
		}
		snprintf(buf, n, "unallocated heap");
		return;
	}
	snprintf(buf, n, "static data at %p", (void *)a);
}

[[noreturn]] void race(uintptr_t a, const char *what, const char *other, int u, void *pc)
{
	char d[160];
	describe(a, d, sizeof d);
	rt::violation("data-race", "%s by task %d conflicts with unordered %s by task %d at %s (pc %p)",
		what, me->id, other, u, d, pc);
}

inline void hb_access(uintptr_t a, size_t n, bool write, bool atomic, void *pc)
{
	Task *t = me;
	while (n) {
		const unsigned off = a & 7;
		const unsigned k = 8 - off < n ? 8 - off : unsigned(n);
		const uint8_t m = uint8_t(((1u << k) - 1) << off);
		Gran *s = gran_of(a);
		if (s) {
			s->used = 1;
			for (int u = 0; u < MAXT; u++) {
				if (u == t->id) continue;
				const uint32_t seen = t->vc.c[u];
				if ((s->wm[u] & m) && s->w[u] > seen)
					race(a, write ? "write" : "read", "write", u, pc);
				if (!atomic && (s->awm[u] & m) && s->aw[u] > seen)
					race(a, write ? "write" : "read", "atomic write", u, pc);
				if (write) {
					if ((s->rm[u] & m) && s->r[u] > seen)
						race(a, "write", "read", u, pc);
					if (!atomic && (s->arm[u] & m) && s->ar[u] > seen)
						race(a, "write", "atomic read", u, pc);
				}
			}
			const int i = t->id;
			const uint32_t c = t->vc.c[i];
			uint32_t *cl = write ? (atomic ? s->aw : s->w) : (atomic ? s->ar : s->r);
			uint8_t *ml = write ? (atomic ? s->awm : s->wm) : (atomic ? s->arm : s->rm);
			if (cl[i] != c) { cl[i] = c; ml[i] = m; } else ml[i] |= m;
		}
		a += k;
		n -= k;
	}
}
inline void tick() { me->vc.c[me->id]++; }

// ---------------------------------------------------------------- memory
uint64_t bump = 16;                 // next free granule
uint32_t nblks = 1;
constexpr int NCLASS = 1025;
uint32_t freelist[NCLASS + 32];     // block number, chained through Blk.size
uint32_t quarantine[4096];
unsigned qpos, qlen = 4096;
uint64_t live_n, live_b, peak_b, lib_allocs, serial_;
uint64_t arm_at;
bool arm_forever, arm_fired_;
uint8_t fill_byte = 0xA5;

int class_of(uint64_t gr)
{
	if (gr < NCLASS) return int(gr);
	int k = 0;
	while ((1ull << (k + 10)) < gr) k++;
	return NCLASS + k;
}

void clear_shadow(const Blk &b)
{
	Gran *s = &shadow[(b.start - ARENA) >> 3];
	const uint64_t n = (b.size + 7) / 8;
	for (uint64_t i = 0; i < n; i++) if (s[i].used) memset(&s[i], 0, sizeof(Gran));
}

constexpr uint8_t RZ = 0xB7;
template <class T> struct MallocAlloc {       // bookkeeping outside the simulated heap
	typedef T value_type;
	T *allocate(size_t n) { return static_cast<T *>(malloc(n * sizeof(T))); }
	void deallocate(T *p, size_t) { free(p); }
};

void early_init();

void *arena_alloc(uint64_t size)
{
	if (!gtab) early_init();
	uint64_t gr = (16 + size + 16 + 15) / 16;
	const int cls = class_of(gr);
	if (cls >= NCLASS) gr = 1ull << (cls - NCLASS + 10);
	uint32_t b = freelist[cls];
	if (b) {
		freelist[cls] = uint32_t(blks[b].size);
	} else {
		if ((bump + gr) * 16 > ARENA_SIZE) rt::inconclusive("simulated heap exhausted");
		b = nblks++;
		blks[b].start = ARENA + bump * 16 + 16;
		blks[b].granules = uint32_t(gr);
		for (uint64_t i = 0; i < gr; i++) gtab[bump + i] = b;
		bump += gr;
	}
	Blk &k = blks[b];
	k.size = size;
	k.serial = ++serial_;
	k.state = B_LIVE;
	char *p = reinterpret_cast<char *>(k.start);
	memset(p - 16, RZ, 16);
	memset(p, fill_byte, size);
	const uint64_t tail = uint64_t(k.granules) * 16 - 16 - size;
	memset(p + size, RZ, tail > 32 ? 32 : tail);
	if (g.par) clear_shadow(k);
	live_n++;
	live_b += size;
	if (live_b > peak_b) peak_b = live_b;
	g.work += 8 + size / 16;
	return p;
}

void arena_free(void *ptr, void *pc)
{
	if (!ptr) return;
	const uintptr_t a = (uintptr_t)ptr;
	if (a - ARENA >= ARENA_SIZE) {
		if (!sh) return;
		rt::violation("bad-free", "free of a pointer that is not a heap block");
	}
	const uint32_t b = gtab[(a - ARENA) >> 4];
	if (!b || blks[b].start != a) rt::violation("bad-free", "free of a pointer inside a block");
	Blk &k = blks[b];
	if (k.state != B_LIVE) rt::violation("double-free", "block of %llu bytes freed twice",
		(unsigned long long)k.size);
	const uint8_t *p = reinterpret_cast<const uint8_t *>(a);
	const uint64_t tail = uint64_t(k.granules) * 16 - 16 - k.size;
	for (int i = 1; i <= 16; i++) if (p[-i] != RZ) rt::violation("heap-overrun",
		"bytes before a %llu-byte block were overwritten", (unsigned long long)k.size);
	for (uint64_t i = 0; i < (tail > 32 ? 32 : tail); i++) if (p[k.size + i] != RZ)
		rt::violation("heap-overrun", "bytes after a %llu-byte block were overwritten",
			(unsigned long long)k.size);
	if (me && g.par && !me->ignore) hb_access(a, k.size, true, false, pc);
	memset(ptr, 0xDD, k.size);
	k.state = B_DEAD;
	live_n--;
	live_b -= k.size;
	uint32_t old = b;            // no quarantine: the very next allocation gets it
	if (qlen) {
		const unsigned qi = qpos++ % qlen;
		old = quarantine[qi];
		quarantine[qi] = b;
	}
	if (old) {
		const int cls = class_of(blks[old].granules);
		blks[old].state = B_FREE;
		blks[old].size = freelist[cls];
		freelist[cls] = old;
	}
}

inline void memcheck(uintptr_t a, size_t n, bool write, void *pc)
{
	if (a - ARENA >= ARENA_SIZE) return;
	const uint32_t b = gtab[(a - ARENA) >> 4];
	if (b) {
		const Blk &k = blks[b];
		if (k.state == B_LIVE && a >= k.start && a + n <= k.start + k.size) return;
		if (k.state != B_LIVE)
			rt::violation("use-after-free", "%s of %zu bytes in a freed heap block (pc %p)",
				write ? "write" : "read", n, pc);
		rt::violation(write ? "heap-overflow-write" : "heap-overflow-read",
			"%s of %zu bytes at offset %lld of a %llu-byte heap block (pc %p)",
			write ? "write" : "read", n, (long long)(a - k.start),
			(unsigned long long)k.size, pc);
	}
	rt::violation("wild-access", "%s of %zu bytes of unallocated heap (pc %p)",
		write ? "write" : "read", n, pc);
}

inline void access(uintptr_t a, size_t n, bool write, void *pc)
{
	Task *t = me;
	if (!t || t->ignore || n == 0) return;
	if (a - t->stk_lo < t->stk_sz) return;
	if (g.par) step(); else g.steps++;
	g.work += 1 + n / 16;
	memcheck(a, n, write, pc);
	if (g.par) hb_access(a, n, write, false, pc);
}

void atomic_pre(uintptr_t a, size_t n, bool write, void *pc)
{
	Task *t = me;
	if (!t || t->ignore) return;
	if (a - t->stk_lo < t->stk_sz) return;
	step();
	memcheck(a, n, write, pc);
	if (g.par) hb_access(a, n, write, true, pc);
}
enum { RLX = 0, CONSUME, ACQ, REL, ACQREL, SEQ };
bool is_acq(int o) { return o == CONSUME || o == ACQ || o == ACQREL || o == SEQ; }
bool is_rel(int o) { return o == REL || o == ACQREL || o == SEQ; }
void atomic_sync(uintptr_t a, bool load, bool store, int order)
{
	Task *t = me;
	if (!t || t->ignore || !g.par) return;
	Gran *s = gran_of(a);
	if (!s) return;
	s->used = 1;
	VC *sv = reinterpret_cast<VC *>(s->sync);
	if (load) {
		if (is_acq(order)) join(t->vc, *sv); else join(t->acq_pend, *sv);
	}
	if (store) {
		if (is_rel(order)) { join(*sv, t->vc); tick(); } else join(*sv, t->rel_fence);
	}
}

}  // namespace

// ------------------------------------------------------------ public API
namespace rt {

uint64_t choose(int stream, uint64_t n)
{
	if (n <= 1) return 0;
	if (g_replay) {
		const uint64_t p = pos_[stream]++;
		const uint64_t v = p < in_n[stream] ? in_v[stream][p] % n : 0;
		return record(stream, v);
	}
	return record(stream, next_bits(rngs[stream]) % n);
}
uint64_t propose(int stream, uint64_t value, uint64_t max)
{
	if (g_replay) {
		const uint64_t p = pos_[stream]++;
		value = p < in_n[stream] ? in_v[stream][p] : 0;
	}
	if (value > max) value = max;
	return record(stream, value);
}
uint64_t bits(int stream) { return g_replay ? 0 : next_bits(rngs[stream]); }
bool chance(int stream, unsigned permille)
{
	if (permille == 0) return false;
	return choose(stream, 1000) >= 1000 - (permille > 1000 ? 1000 : permille);
}
void fired(Fault kind, uint64_t n)
{
	sh->faults[kind] += n;
	if (kind != F_preempt_access && kind != F_preempt_seam) g.fired_total += n;
}
uint64_t fired_total() { return g.fired_total; }
uint32_t fault(Fault kind, unsigned permille)
{
	if (!chance(FAULT, permille)) return 0;
	fired(kind);
	return uint32_t(g.fired_total);
}
void probe(Probe p, uint64_t n) { sh->probes[p] += n; }

void log(const char *fmt, ...)
{
	if (!g_verbose) return;
	char buf[900];
	const int k = snprintf(buf, sizeof buf, "  t%d @%llu: ", me ? me->id : -1,
		(unsigned long long)g.steps);
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(buf + k, sizeof buf - k, fmt, ap);
	va_end(ap);
	dprintf(2, "%s\n", buf);
}
bool verbose() { return g_verbose; }
void event(uint32_t tag, uint64_t a, uint64_t b, uint64_t c)
{
	mix(hist, (uint64_t(me ? me->id : 9) << 32) ^ tag);
	mix(hist, a);
	mix(hist, b);
	mix(hist, c);
}
void violation(const char *cls, const char *fmt, ...)
{
	va_list ap;
	va_start(ap, fmt);
	vviolation(cls, fmt, ap);
}
void inconclusive(const char *why)
{
	snprintf(sh->cls, sizeof sh->cls, "inconclusive");
	snprintf(sh->msg, sizeof sh->msg, "%s", why);
	finish(ST_INCONCLUSIVE);
}


// What the stack holds below a call into the library is drawn too, so a value
// that was never written is neither a lucky zero nor the leftover of last time.
static __attribute__((noinline)) void stir_stack()
{
	uint8_t b[6144];
	memset(b, fill_byte, sizeof b);
	asm volatile("" : : "r"(b) : "memory");
}

int lib_enter()
{
	const int s = me->inlib;
	if (!s) {
		g.calls++;
		stir_stack();
		errno = g.errno_left;
	}
	me->inlib = 1;
	return s;
}

void lib_leave(int s) { me->inlib = s; }
int seam_enter() { const int s = me->inlib; me->inlib = 0; return s; }
void seam_leave(int s)
{
	me->inlib = s;
	if (!s) return;
	g.clock_passed += g.clock_step;
	g.clock_skew -= g.clock_back;
	if (g.errno_left) errno = g.errno_left;
}
void odd_environment()
{
	static const uint64_t steps[] = {1, 1000, 60000, 3600000, 86400000, 400ull * 86400000};
	static const int errors[] = {ERANGE, EINTR, ENOMEM, EAGAIN, EINVAL};
	g.clock_step = g.clock_passed = 0;
	g.clock_skew = g.clock_back = 0;
	g.errno_left = 0;
	if (chance(DATA, 150)) {
		g.clock_step = steps[choose(DATA, 6)];
		if (choose(DATA, 2)) g.clock_back = int64_t(2 * steps[choose(DATA, 5)]);
		probe(P_odd_clock);
	}
	if (chance(DATA, 150)) {
		g.errno_left = errors[choose(DATA, 5)];
		probe(P_odd_errno);
	}
	g.random = choose(DATA, 1ull << 32);
}
void ignore_begin() { me->ignore++; }
void ignore_end() { me->ignore--; }
bool quiet() { return !me || me->ignore != 0; }

int self() { return me->id; }
bool in_parallel() { return g.par; }
uint64_t steps() { return g.steps; }
void allow_steps(uint64_t n) { step_limit += n; }
uint64_t work() { return g.work; }
void seam_point() { sync_point(); }
uint64_t now() { return g.ticks; }

void sched_config()
{
	// 0: only at seams; 1: random gaps; 2: a few preemptions anywhere
	g.mode = int(choose(SCHED, 4));
	if (g.mode == 3) g.mode = 1;
	const uint64_t gaps[] = {4000, 500, 60, 12, 3};
	g.mean_gap = gaps[choose(SCHED, 5)];
	const unsigned seams[] = {100, 0, 300, 600};
	g.seam_permille = seams[choose(SCHED, 4)];
	if (g.mode == 0 && g.seam_permille == 0) g.seam_permille = 400;
	g.preempt_left = g.mode == 2 ? int(1 + choose(SCHED, 4)) : -1;
}

void sleep(uint64_t ticks)
{
	if (ticks == 0) return;
	if (!g.par) { g.ticks += ticks; return; }
	me->state = T_SLEEPING;
	me->wake_at = g.ticks + ticks;
	reschedule();
}
void wait_on(const void *what) { block_on(what); }
void notify(const void *what) { wake(what); }

void alloc_arm(uint64_t nth, bool forever)
{
	arm_at = nth ? lib_allocs + nth : 0;
	arm_forever = forever;
	arm_fired_ = false;
}
bool alloc_fired() { return arm_fired_; }
uint64_t alloc_count() { return lib_allocs; }
uint64_t live_blocks() { return live_n; }
HeapMark heap_mark() { return {live_n, serial_}; }
// Blocks allocated since the mark that nothing can reach any more. What a
// static or thread-local cache of the code under test keeps is no leak.
uint64_t leaked_since(const HeapMark &m)
{
	if (live_n <= m.live) return 0;
	std::vector<uint32_t, MallocAlloc<uint32_t>> todo;
	for (uint32_t i = 1; i < nblks; i++) {
		blks[i].mark = 0;
		if (blks[i].state == B_LIVE && blks[i].serial <= m.serial) {
			blks[i].mark = 1;
			todo.push_back(i);
		}
	}
	const auto scan = [&](uintptr_t from, uintptr_t to) {
		for (uintptr_t a = (from + 7) & ~uintptr_t(7); a + 8 <= to; a += 8) {
			const uintptr_t w = *reinterpret_cast<const uintptr_t *>(a);
			if (w - ARENA >= ARENA_SIZE) continue;
			const uint32_t b = gtab[(w - ARENA) >> 4];
			if (!b || blks[b].mark || blks[b].state != B_LIVE) continue;
			if (w < blks[b].start || w > blks[b].start + blks[b].size) continue;
			blks[b].mark = 1;
			todo.push_back(b);
		}
	};
	scan((uintptr_t)&__data_start, (uintptr_t)&_end);
	struct Tls { uint64_t size; } tls = {0};
	dl_iterate_phdr([](dl_phdr_info *i, size_t, void *arg) {
		for (int k = 0; k < i->dlpi_phnum; k++) {
			const auto &h = i->dlpi_phdr[k];
			if (h.p_type == PT_TLS) static_cast<Tls *>(arg)->size = (h.p_memsz + h.p_align - 1) / h.p_align * h.p_align;
		}
		return 1;            // the executable comes first
	}, &tls);
	const uintptr_t fs = (uintptr_t)__builtin_thread_pointer();
	scan(fs - tls.size, fs);
	while (!todo.empty()) {
		const Blk k = blks[todo.back()];
		todo.pop_back();
		scan(k.start, k.start + k.size);
	}
	uint64_t lost = 0;
	for (uint32_t i = 1; i < nblks; i++) if (blks[i].state == B_LIVE && !blks[i].mark) lost++;
	return lost;
}
uint64_t live_bytes() { return live_b; }
void peak_reset() { peak_b = live_b; }
uint64_t peak_bytes() { return peak_b; }

__attribute__((noinline)) void stack_reset()
{
	me->base_sp = me->min_sp = (uintptr_t)__builtin_frame_address(0);
}
uint64_t stack_used() { return me->base_sp - me->min_sp; }
void set_stack_size(uint64_t bytes) { g.stack_size = bytes; }

}  // namespace rt

namespace {

constexpr uintptr_t STACKS = 0x510000000000ull;
constexpr uint64_t STACK_SLOT = 64ull << 20;
constexpr uint64_t ALT = 64 << 10;

void on_signal(int sig, siginfo_t *si, void *)
{
	const uintptr_t a = (uintptr_t)si->si_addr;
	if (!me || !sh) _exit(98);
	if (sig == SIGPROF) {
		// a tick of CPU time: the run is stuck only if a whole tick passed
		// inside one call into the code under test
		static uint64_t last_calls = ~0ull;
		static int ticks;
		if (last_calls != g.calls) {
			last_calls = g.calls;
			if (++ticks > 12) rt::inconclusive("run too long");
			return;
		}
		snprintf(sh->cls, sizeof sh->cls, "hang");
		snprintf(sh->msg, sizeof sh->msg, "no progress within the CPU budget");
		// where exactly the timer struck is not repeatable; that it struck is
		hist = schedh = g.steps = g.work = 0;
		finish(ST_VIOLATION);
	}
	if (sig == SIGALRM) rt::inconclusive("blocked outside the simulator");
	const bool so = sig == SIGSEGV && a < me->stk_lo && me->stk_lo - a < (1 << 20);
	const char *cls = so ? "stack-overflow" : sig == SIGSEGV ? "crash-segv" :
		sig == SIGABRT ? "crash-abort" : sig == SIGFPE ? "crash-fpe" :
		sig == SIGBUS ? "crash-bus" : sig == SIGILL ? "crash-ill" : "crash-signal";
	snprintf(sh->cls, sizeof sh->cls, "%s", cls);
	snprintf(sh->msg, sizeof sh->msg, "[task %d, step %llu] the code under test died with signal %d%s",
		me->id, (unsigned long long)g.steps, sig,
		so ? " (its stack ran out)" : (sig == SIGSEGV && a < 4096) ? " (null pointer)" : "");
	if (g_verbose) dprintf(2, "VIOLATION(%s): %s\n", sh->cls, sh->msg);
	finish(ST_VIOLATION);
}

void install_handlers()
{
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_signal;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	const int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF, SIGALRM};
	for (int s : sigs) sigaction(s, &sa, nullptr);
}

void *task_main(void *p)
{
	Task *t = static_cast<Task *>(p);
	me = t;
	stack_t ss;
	memset(&ss, 0, sizeof ss);
	ss.ss_sp = t->altstack;
	ss.ss_size = ALT;
	sigaltstack(&ss, nullptr);
	rt::stack_reset();
	while (__atomic_load_n(&t->turn, __ATOMIC_SEQ_CST) == 0) {
		raw_futex(&t->turn, FUTEX_WAIT_PRIVATE, 0);
	}
	g.fn(g.arg, t->id);
	if (t->id == 0) return nullptr;
	t->state = T_DONE;
	g.alive--;
	if (g.alive == 0) wake(&g);
	tick();
	reschedule();
	return nullptr;
}

void create_task(int id, uint64_t stack)
{
	Task &t = tasks[id];
	const uint32_t own = t.vc.c[id];
	t.id = id;
	t.turn = 0;
	t.state = T_RUNNABLE;
	t.waiting = nullptr;
	t.inlib = t.ignore = 0;
	t.run_len = 0;
	memset(&t.acq_pend, 0, sizeof t.acq_pend);
	memset(&t.rel_fence, 0, sizeof t.rel_fence);
	if (me) { t.vc = me->vc; } else memset(&t.vc, 0, sizeof t.vc);
	t.vc.c[id] = own + 1;
	const uintptr_t slot = STACKS + id * STACK_SLOT;
	// stack at the top of the slot, inaccessible below it
	t.stk_sz = stack;
	t.stk_lo = slot + STACK_SLOT - stack;
	void *m = mmap((void *)t.stk_lo, stack, PROT_READ | PROT_WRITE,
		MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
	if (m == MAP_FAILED) rt::inconclusive("no stack");
	if (!t.altstack) {
		t.altstack = mmap(nullptr, ALT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	}
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstack(&at, (void *)t.stk_lo, stack);
	if (pthread_create(&t.th, &at, task_main, &t)) rt::inconclusive("cannot create a task");
}

}  // namespace

void rt::parallel(int n, TaskFn fn, void *arg)
{
	if (n > MAXT - 1) n = MAXT - 1;
	g.fn = fn;
	g.arg = arg;
	g.ntasks = n;
	g.alive = n;
	probe(P_parallel_sections);
	probe(P_tasks_spawned, n);
	if (uint64_t(n) > sh->max_tasks) sh->max_tasks = n;
	for (int i = 1; i <= n; i++) create_task(i, g.stack_size);
	tick();
	g.par = true;
	draw_gap();
	me->state = T_BLOCKED;
	me->waiting = &g;
	reschedule();
	g.par = false;
	g.budget = 0;
	for (int i = 1; i <= n; i++) {
		pthread_join(tasks[i].th, nullptr);
		join(me->vc, tasks[i].vc);
		tasks[i].state = T_UNUSED;
	}
}

// ------------------------------------------------------ operator new/delete
static void *do_new(size_t n, bool nothrow)
{
	if (me && me->inlib && !me->ignore) {
		lib_allocs++;
		if (arm_at && (lib_allocs == arm_at || (arm_forever && lib_allocs > arm_at))) {
			if (!arm_fired_) rt::fired(arm_forever ? rt::F_alloc_exhausted : rt::F_alloc_fail);
			arm_fired_ = true;
			if (nothrow) return nullptr;
			throw std::bad_alloc();
		}
		// A task switch may happen around an allocation.
		if (g.par) step();
	}
	return arena_alloc(n);
}
void *operator new(size_t n) { return do_new(n, false); }
void *operator new[](size_t n) { return do_new(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n, true); }
void *operator new(size_t n, std::align_val_t a)
{
	if (size_t(a) > 16) rt::inconclusive("over-aligned allocation");
	return do_new(n, false);
}
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
#define PC __builtin_return_address(0)
void operator delete(void *p) noexcept { arena_free(p, PC); }
void operator delete[](void *p) noexcept { arena_free(p, PC); }
void operator delete(void *p, size_t) noexcept { arena_free(p, PC); }
void operator delete[](void *p, size_t) noexcept { arena_free(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { arena_free(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { arena_free(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { arena_free(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { arena_free(p, PC); }

// -------------------------------------------- instrumentation interface
#define AT(p) (uintptr_t)(p)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *)
{
	Task *t = me;
	if (!t) return;
	const uintptr_t sp = (uintptr_t)__builtin_frame_address(0);
	if (sp < t->min_sp) t->min_sp = sp;
}
void __tsan_func_exit() {}
#define RW(n) \
	void __tsan_read##n(void *a) { access(AT(a), n, false, PC); } \
	void __tsan_write##n(void *a) { access(AT(a), n, true, PC); } \
	void __tsan_unaligned_read##n(void *a) { access(AT(a), n, false, PC); } \
	void __tsan_unaligned_write##n(void *a) { access(AT(a), n, true, PC); } \
	void __tsan_volatile_read##n(void *a) { access(AT(a), n, false, PC); } \
	void __tsan_volatile_write##n(void *a) { access(AT(a), n, true, PC); } \
	void __tsan_unaligned_volatile_read##n(void *a) { access(AT(a), n, false, PC); } \
	void __tsan_unaligned_volatile_write##n(void *a) { access(AT(a), n, true, PC); } \
	void __tsan_read_write##n(void *a) { access(AT(a), n, false, PC); access(AT(a), n, true, PC); } \
	void __tsan_unaligned_read_write##n(void *a) { access(AT(a), n, false, PC); access(AT(a), n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { access(AT(a), n, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { access(AT(a), n, true, PC); }
void __tsan_vptr_read(void **a) { access(AT(a), 8, false, PC); }
void __tsan_vptr_update(void **a, void *v) { if (*a != v) access(AT(a), 8, true, PC); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void *__tsan_memcpy(void *d, const void *s, size_t n)
{
	access(AT(s), n, false, PC);
	access(AT(d), n, true, PC);
	return n ? memmove(d, s, n) : d;
}
void *__tsan_memmove(void *d, const void *s, size_t n)
{
	access(AT(s), n, false, PC);
	access(AT(d), n, true, PC);
	return n ? memmove(d, s, n) : d;
}
void *__tsan_memset(void *d, int c, size_t n)
{
	access(AT(d), n, true, PC);
	return n ? memset(d, c, n) : d;
}

#define ATOMIC(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T *a, int o) { \
		atomic_pre(AT(a), sizeof(T), false, PC); atomic_sync(AT(a), true, false, o); return *a; } \
	void __tsan_atomic##bits##_store(volatile T *a, T v, int o) { \
		atomic_pre(AT(a), sizeof(T), true, PC); atomic_sync(AT(a), false, true, o); *a = v; } \
	T __tsan_atomic##bits##_exchange(volatile T *a, T v, int o) { \
		atomic_pre(AT(a), sizeof(T), true, PC); atomic_sync(AT(a), true, true, o); T r = *a; *a = v; return r; } \
	T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int o) { \
		atomic_pre(AT(a), sizeof(T), true, PC); atomic_sync(AT(a), true, true, o); T r = *a; *a = r + v; return r; } \
	T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int o) { \
		atomic_pre(AT(a), sizeof(T), true, PC); atomic_sync(AT(a), true, true, o); T r = *a; *a = r - v; return r; } \
	T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int o) { \
		atomic_pre(AT(a), sizeof(T), true, PC); atomic_sync(AT(a), true, true, o); T r = *a; *a = r & v; return r; } \
	T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int o) { \
		atomic_pre(AT(a), sizeof(T), true, PC); atomic_sync(AT(a), true, true, o); T r = *a; *a = r | v; return r; } \
	T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int o) { \
		atomic_pre(AT(a), sizeof(T), true, PC); atomic_sync(AT(a), true, true, o); T r = *a; *a = r ^ v; return r; } \
	T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int o) { \
		atomic_pre(AT(a), sizeof(T), true, PC); atomic_sync(AT(a), true, true, o); T r = *a; *a = ~(r & v); return r; } \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int o, int f) { \
		atomic_pre(AT(a), sizeof(T), true, PC); \
		if (*a == *c) { atomic_sync(AT(a), true, true, o); *a = v; return 1; } \
		atomic_sync(AT(a), true, false, f); *c = *a; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int o, int f) { \
		return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, o, f); } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T c, T v, int o, int f) { \
		__tsan_atomic##bits##_compare_exchange_strong(a, &c, v, o, f); return c; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
ATOMIC(128, unsigned __int128)
void __tsan_atomic_thread_fence(int o)
{
	if (!me || !g.par) return;
	if (is_acq(o)) join(me->vc, me->acq_pend);
	if (is_rel(o)) { me->rel_fence = me->vc; tick(); }
}
void __tsan_atomic_signal_fence(int) {}
}

// -------------------------------------------------- synchronisation model
namespace {
struct Sync {
	uintptr_t addr;
	int owner;        // writer / owner, -1 = none
	int count;        // recursion
	int readers;
	uint64_t serial;  // of the heap block it lies in
	VC vc, rvc;
};
constexpr int NSYNC = 1 << 14;
Sync syncs[NSYNC];
Sync *sync_of(const volatile void *p)
{
	const uintptr_t a = (uintptr_t)p;
	const uint64_t serial = a - ARENA < ARENA_SIZE ? blks[gtab[(a - ARENA) >> 4]].serial : 0;
	for (unsigned i = 0, h = (a >> 3) * 0x9e3779b1u % NSYNC; i < NSYNC; i++, h = (h + 1) % NSYNC) {
		// memory that was freed and given out again holds a new object
		if (syncs[h].addr == 0 || (syncs[h].addr == a && syncs[h].serial != serial)) {
			memset(&syncs[h], 0, sizeof syncs[h]);
			syncs[h].addr = a;
			syncs[h].serial = serial;
			syncs[h].owner = -1;
		}
		if (syncs[h].addr == a) return &syncs[h];
	}
	rt::inconclusive("too many locks");
}
void acquire(const VC &v) { join(me->vc, v); }
void release(VC &v) { join(v, me->vc); tick(); }

int mutex_lock(pthread_mutex_t *m, bool try_)
{
	if (!me) return 0;
	sync_point();
	Sync *s = sync_of(m);
	if (s->owner == me->id) {
		if ((m->__data.__kind & 3) == 1) { s->count++; return 0; }
		if (try_) return EBUSY;
		rt::violation("deadlock", "a task locks a mutex it already holds");
	}
	if (s->owner >= 0) {
		if (try_) return EBUSY;
		rt::probe(rt::P_lock_contended);
		while (s->owner >= 0) block_on(s);
	}
	s->owner = me->id;
	s->count = 1;
	acquire(s->vc);
	return 0;
}
int mutex_unlock(pthread_mutex_t *m)
{
	if (!me) return 0;
	Sync *s = sync_of(m);
	if (--s->count > 0) return 0;
	release(s->vc);
	s->owner = -1;
	wake(s);
	sync_point();
	return 0;
}
}  // namespace

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { return mutex_lock(m, false); }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { return mutex_lock(m, true); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const timespec *) noexcept { return mutex_lock(m, false); }
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const timespec *) noexcept { return mutex_lock(m, false); }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { return mutex_unlock(m); }

int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept
{
	if (!me) return 0;
	sync_point();
	Sync *s = sync_of(m);
	if (s->owner == me->id) rt::violation("deadlock", "a task write-locks a lock it already holds");
	while (s->owner >= 0 || s->readers > 0) block_on(s);
	s->owner = me->id;
	acquire(s->vc);
	acquire(s->rvc);
	return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept
{
	if (!me) return 0;
	sync_point();
	Sync *s = sync_of(m);
	if (s->owner == me->id) rt::violation("deadlock", "a task read-locks a lock it write-holds");
	while (s->owner >= 0) block_on(s);
	s->readers++;
	acquire(s->vc);
	return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) noexcept
{
	if (!me) return 0;
	Sync *s = sync_of(m);
	if (s->owner >= 0 || s->readers > 0) return EBUSY;
	return pthread_rwlock_wrlock(m);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) noexcept
{
	if (!me) return 0;
	Sync *s = sync_of(m);
	if (s->owner >= 0) return EBUSY;
	return pthread_rwlock_rdlock(m);
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept
{
	if (!me) return 0;
	Sync *s = sync_of(m);
	if (s->owner == me->id) {
		release(s->vc);
		s->owner = -1;
	} else {
		release(s->rvc);
		s->readers--;
	}
	wake(s);
	sync_point();
	return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m)
{
	if (!me) return 0;
	Sync *s = sync_of(c);
	Sync *k = sync_of(m);
	release(k->vc);
	k->owner = -1;
	wake(k);
	block_on(s);
	while (k->owner >= 0) block_on(k);
	k->owner = me->id;
	k->count = 1;
	acquire(k->vc);
	return 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *)
{
	return pthread_cond_wait(c, m);
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const timespec *)
{
	return pthread_cond_wait(c, m);
}
int pthread_cond_signal(pthread_cond_t *c) noexcept
{
	if (!me) return 0;
	wake(sync_of(c));
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) noexcept
{
	if (!me) return 0;
	wake(sync_of(c));
	return 0;
}
int pthread_once(pthread_once_t *o, void (*fn)())
{
	// the state lives where the caller keeps it: 0 never, 1 running, 2 done
	volatile int &once = *reinterpret_cast<volatile int *>(o);
	if (!me) {
		if (once != 2) { fn(); once = 2; }
		return 0;
	}
	Sync *s = sync_of(o);
	sync_point();
	for (;;) {
		if (once == 2) { acquire(s->vc); return 0; }
		if (once == 0) break;
		if (s->owner == me->id) rt::violation("deadlock", "recursive one-time initialisation");
		block_on(s);
	}
	acquire(s->vc);  // a failed attempt synchronises with the next one
	once = 1;
	s->owner = me->id;
	try {
		fn();
	} catch (...) {
		release(s->vc);
		once = 0;
		s->owner = -1;
		wake(s);
		throw;
	}
	release(s->vc);
	once = 2;
	s->owner = -1;
	wake(s);
	return 0;
}
int sched_yield() noexcept
{
	if (me && g.par && !me->ignore) preempt(true);
	return 0;
}

// Function-local statics.
int __cxa_guard_acquire(uint64_t *gd)
{
	volatile uint8_t *b = reinterpret_cast<volatile uint8_t *>(gd);
	if (!me) {
		if (b[0]) return 0;
		b[1] = 1;
		return 1;
	}
	Sync *s = sync_of(gd);
	for (;;) {
		if (b[0]) { acquire(s->vc); return 0; }
		if (!b[1]) break;
		if (s->owner == me->id) rt::violation("deadlock", "recursive static initialisation");
		block_on(s);
	}
	acquire(s->vc);
	b[1] = 1;
	s->owner = me->id;
	return 1;
}
void __cxa_guard_release(uint64_t *gd) noexcept
{
	volatile uint8_t *b = reinterpret_cast<volatile uint8_t *>(gd);
	b[0] = 1;
	b[1] = 0;
	if (!me) return;
	Sync *s = sync_of(gd);
	release(s->vc);
	// the inlined fast path reads the first byte with acquire order
	if (g.par) {
		Gran *gr = gran_of(AT(gd));
		if (gr) join(*reinterpret_cast<VC *>(gr->sync), s->vc);
	}
	s->owner = -1;
	wake(s);
}
void __cxa_guard_abort(uint64_t *gd) noexcept
{
	volatile uint8_t *b = reinterpret_cast<volatile uint8_t *>(gd);
	b[1] = 0;
	if (!me) return;
	Sync *s = sync_of(gd);
	release(s->vc);
	s->owner = -1;
	wake(s);
}

// Simulated clocks: code under test never sees real time. The steady clocks are
// the ticks; the wall clock may be stepped in either direction.
static int64_t simulated_ms(clockid_t c)
{
	rt::probe(rt::P_clock_read);
	const int64_t t = int64_t(g.ticks + g.clock_passed);
	switch (c) {
	case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI:
		return 1600000000000 + t + g.clock_skew;
	default:
		return 1000000 + t;
	}
}
time_t time(time_t *t) noexcept
{
	const time_t v = time_t(simulated_ms(CLOCK_REALTIME) / 1000);
	if (t) *t = v;
	return v;
}
int clock_gettime(clockid_t c, timespec *ts) noexcept
{
	if (!me) return int(syscall(SYS_clock_gettime, c, ts));
	const int64_t v = simulated_ms(c);
	ts->tv_sec = time_t(v / 1000);
	ts->tv_nsec = long(v % 1000) * 1000000;
	return 0;
}
int timespec_get(timespec *ts, int base) noexcept { clock_gettime(CLOCK_REALTIME, ts); return base; }
int gettimeofday(timeval *tv, void *) noexcept
{
	timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec;
	tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
clock_t clock() noexcept { return clock_t(g.steps); }
// Simulated randomness.
static uint64_t simulated_random()
{
	rt::probe(rt::P_random_read);
	uint64_t z = g.random += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}
ssize_t getrandom(void *p, size_t n, unsigned)
{
	for (size_t i = 0; i < n; i++) static_cast<uint8_t *>(p)[i] = uint8_t(simulated_random());
	return ssize_t(n);
}
int getentropy(void *p, size_t n) { getrandom(p, n, 0); return 0; }
void arc4random_buf(void *p, size_t n) noexcept { getrandom(p, n, 0); }
uint32_t arc4random() noexcept { return uint32_t(simulated_random()); }
int rand() noexcept { return int(simulated_random() & RAND_MAX); }
long random() noexcept { return long(simulated_random() & RAND_MAX); }
int rand_r(unsigned *s) noexcept { *s += 1; return int(simulated_random() & RAND_MAX); }
unsigned simulated_random_device(void *) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned simulated_random_device(void *) { return unsigned(simulated_random()); }
int nanosleep(const timespec *t, timespec *)
{
	if (!me) return int(syscall(SYS_nanosleep, t, nullptr));
	rt::sleep(uint64_t(t->tv_sec) * 1000 + uint64_t(t->tv_nsec) / 1000000 + 1);
	return 0;
}
int clock_nanosleep(clockid_t, int, const timespec *t, timespec *) { return nanosleep(t, nullptr); }
}

// ------------------------------------------------------------- the worker
namespace {

const Scenario *scn;

void scenario_entry(void *, int)
{
	// Sometimes a process lives through several histories, so that what one
	// leaves behind in static or thread-local storage meets the next.
	const int more = rt::chance(rt::OPS, 200) ? 1 + int(rt::choose(rt::OPS, 2)) : 0;
	for (int i = 0; ; i++) {
		scenario_reset(scn->id);
		scn->run();
		if (i == more) break;
		rt::probe(rt::P_another_history);
		rt::log("---- another history in the same process");
		rt::alloc_arm(0, false);
		rt::set_stack_size(8 << 20);
	}
	rt::probe(rt::P_runs);
	finish(ST_OK);
}

[[noreturn]] void child()
{
	install_handlers();
	// CPU budget (robust under load) and a wall-clock net for blocking that
	// the simulator does not model.
	itimerval cpu = {{10, 0}, {10, 0}}, wall = {{0, 0}, {240, 0}};
	setitimer(ITIMER_PROF, &cpu, nullptr);
	setitimer(ITIMER_REAL, &wall, nullptr);
	g.stack_size = 8 << 20;
	g.fn = scenario_entry;
	fill_byte = uint8_t(rt::choose(rt::DATA, 256));
	// Freed memory is normally kept aside to catch late uses of it; an
	// allocator that reuses it at once shows what is remembered by address.
	qlen = rt::chance(rt::DATA, 300) ? 0 : 4096;
	create_task(0, 32ull << 20);
	tasks[0].turn = 1;
	raw_futex(&tasks[0].turn, FUTEX_WAKE_PRIVATE, 1);
	for (;;) pause();
}

// returns false when the child ended without a verdict
void run_once()
{
	sh->status = ST_NONE;
	sh->cls[0] = sh->msg[0] = 0;
	for (auto &x : sh->n) x = 0;
	memset(pos_, 0, sizeof pos_);
	const pid_t p = fork();
	if (p < 0) {
		perror("fork");
		_exit(2);
	}
	if (p == 0) child();
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (sh->status == ST_NONE) {
		sh->status = ST_VIOLATION;
		snprintf(sh->cls, sizeof sh->cls, "crash-exit");
		snprintf(sh->msg, sizeof sh->msg, "the simulated process ended with status %x", st);
	}
}

uint64_t run_seed(uint64_t seed, const char *id, uint64_t index)
{
	uint64_t x = seed * 0x9e3779b97f4a7c15ull + 1;
	for (const char *c = id; *c; c++) x = (x ^ uint8_t(*c)) * 0x100000001b3ull;
	x ^= index * 0xd1342543de82ef95ull;
	return splitmix(x);
}

void *reserve(uintptr_t at, uint64_t n, int flags)
{
	void *p = mmap((void *)at, n, PROT_READ | PROT_WRITE,
		MAP_ANONYMOUS | MAP_NORESERVE | flags | (at ? MAP_FIXED : 0), -1, 0);
	if (p == MAP_FAILED) {
		perror("mmap");
		_exit(2);
	}
	return p;
}

const char *const fault_names[] = {
#define X(n) #n,
	RT_FAULTS(X)
#undef X
};
const char *const probe_names[] = {
#define X(n) #n,
	RT_PROBES(X)
#undef X
};

void json_escape(FILE *f, const char *s)
{
	for (; *s; s++) {
		if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
		else if (*s == '\n') fprintf(f, "\\n");
		else if (uint8_t(*s) < 32 || uint8_t(*s) > 126) fprintf(f, " ");
		else fputc(*s, f);
	}
}

void print_result(FILE *f, bool choices)
{
	fprintf(f, "{\"status\": %d, \"cls\": \"", sh->status);
	json_escape(f, sh->cls);
	fprintf(f, "\", \"msg\": \"");
	json_escape(f, sh->msg);
	fprintf(f, "\", \"hist\": \"%016llx\", \"sched\": \"%016llx\", \"steps\": %llu, \"fired\": %llu, \"switches\": %llu",
		(unsigned long long)sh->hist_hash, (unsigned long long)sh->sched_hash,
		(unsigned long long)sh->run_steps, (unsigned long long)sh->run_fired,
		(unsigned long long)sh->run_switches);
	if (choices) {
		fprintf(f, ", \"choices\": [");
		for (int s = 0; s < rt::NSTREAMS; s++) {
			fprintf(f, "%s[", s ? ", " : "");
			for (uint64_t i = 0; i < sh->n[s]; i++)
				fprintf(f, "%s%llu", i ? "," : "", (unsigned long long)sh->v[s][i]);
			fprintf(f, "]");
		}
		fprintf(f, "]");
	}
	fprintf(f, "}\n");
	fflush(f);
}

double wall()
{
	timespec t;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
	return double(t.tv_sec) + double(t.tv_nsec) * 1e-9;
}

// Reads "n v v v ..." for each stream from a line of text.
void parse_trace(char *line)
{
	g_replay = true;
	char *p = line;
	for (int s = 0; s < rt::NSTREAMS; s++) {
		const uint64_t n = strtoull(p, &p, 10);
		if (!in_v[s]) in_v[s] = static_cast<uint64_t *>(malloc(sizeof(uint64_t) * (CAP + 1)));
		in_n[s] = 0;
		for (uint64_t i = 0; i < n; i++) {
			const uint64_t v = strtoull(p, &p, 10);
			if (i < CAP) in_v[s][in_n[s]++] = v;
		}
	}
}

}  // namespace

int main(int argc, char **argv)
{
	if (!getenv("GOOST_SIM_NOASLR")) {
		setenv("GOOST_SIM_NOASLR", "1", 1);
		if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
	}
	if (argc < 2) return 2;
	setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
	if (!strcmp(argv[1], "list")) {
		for (int i = 0; i < n_scenarios; i++) printf("%s %s\n", scenarios[i].id, scenarios[i].name);
		return 0;
	}
	if (!ref_selftest()) {
		fprintf(stderr, "reference model self-test failed\n");
		return 2;
	}
	if (argc < 3) return 2;
	for (int i = 0; i < n_scenarios; i++) if (!strcmp(scenarios[i].id, argv[2])) scn = &scenarios[i];
	if (!scn) {
		fprintf(stderr, "no such scenario %s\n", argv[2]);
		return 2;
	}
	sh = static_cast<Shared *>(reserve(0, sizeof(Shared), MAP_SHARED));

	const char *cpu = getenv("GOOST_SIM_CPU");
	if (cpu) {
		cpu_set_t c;
		CPU_ZERO(&c);
		CPU_SET(atoi(cpu), &c);
		sched_setaffinity(0, sizeof c, &c);
	}

	if (!strcmp(argv[1], "batch") && argc >= 8) {
		// batch ID SEED FIRST COUNT STRIDE HASHFILE [SECONDS]
		const uint64_t seed = strtoull(argv[3], nullptr, 10);
		const uint64_t first = strtoull(argv[4], nullptr, 10);
		const uint64_t count = strtoull(argv[5], nullptr, 10);
		const uint64_t stride = strtoull(argv[6], nullptr, 10);
		FILE *hf = fopen(argv[7], "wb");
		const double limit = argc > 8 ? atof(argv[8]) : 1e9;
		const double t0 = wall();
		uint64_t done = 0, incon = 0;
		bool bad = false;
		uint64_t bad_index = 0;
		for (uint64_t i = 0; i < count; i++) {
			const uint64_t idx = first + i * stride;
			seed_all(run_seed(seed, scn->id, idx));
			run_once();
			done++;
			if (hf) {
				const uint64_t rec[6] = {idx, sh->hist_hash, sh->sched_hash,
					sh->run_fired << 32 | (sh->run_switches & 0xffffffff), sh->shape_hash, sh->run_calls};
				fwrite(rec, sizeof rec, 1, hf);
			}
			if (sh->status == ST_VIOLATION) {
				bad = true;
				bad_index = idx;
				break;
			}
			if (sh->status == ST_INCONCLUSIVE) incon++;
			if (wall() - t0 > limit) break;
		}
		if (hf) fclose(hf);
		printf("{\"runs\": %llu, \"inconclusive\": %llu, \"wall\": %.3f, \"bad\": %s, \"bad_index\": %llu,\n",
			(unsigned long long)done, (unsigned long long)incon, wall() - t0,
			bad ? "true" : "false", (unsigned long long)bad_index);
		printf("\"switches\": %llu, \"steps\": %llu, \"ticks\": %llu, \"max_tasks\": %llu,\n\"faults\": {",
			(unsigned long long)sh->switches, (unsigned long long)sh->steps,
			(unsigned long long)sh->ticks, (unsigned long long)sh->max_tasks);
		bool c = false;
		for (int i = 0; i < rt::F_COUNT; i++) {
			printf("%s\"%s\": %llu", c ? ", " : "", fault_names[i], (unsigned long long)sh->faults[i]);
			c = true;
		}
		printf("}, \"probes\": {");
		c = false;
		for (int i = 0; i < rt::P_COUNT; i++) {
			printf("%s\"%s\": %llu", c ? ", " : "", probe_names[i], (unsigned long long)sh->probes[i]);
			c = true;
		}
		printf("}, \"last\": ");
		print_result(stdout, bad);
		printf("}\n");
		return 0;
	}
	if (!strcmp(argv[1], "serve")) {
		// one request per line: "S seed index" | "T n v.. n v.. n v.. n v.." ;
		// a leading 'v' makes it verbose on stderr
		char *line = nullptr;
		size_t cap = 0;
		while (getline(&line, &cap, stdin) > 0) {
			char *p = line;
			g_verbose = false;
			if (*p == 'v') { g_verbose = true; p++; }
			if (*p == 'S') {
				char *e;
				const uint64_t seed = strtoull(p + 1, &e, 10);
				const uint64_t idx = strtoull(e, &e, 10);
				g_replay = false;
				seed_all(run_seed(seed, scn->id, idx));
			} else if (*p == 'T') {
				parse_trace(p + 1);
			} else {
				break;
			}
			run_once();
			print_result(stdout, true);
		}
		free(line);
		return 0;
	}
	return 2;
}

// The heap must exist before any static constructor allocates.
namespace {
void early_init()
{
	mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE,
		MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
	gtab = static_cast<uint32_t *>(reserve(0, ARENA_SIZE / 16 * 4, MAP_PRIVATE));
	blks = static_cast<Blk *>(reserve(0, ARENA_SIZE / 48 * sizeof(Blk), MAP_PRIVATE));
	shadow = static_cast<Gran *>(reserve(0, ARENA_SIZE / 8 * sizeof(Gran), MAP_PRIVATE));
}
}
