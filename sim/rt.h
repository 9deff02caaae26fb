// Deterministic simulation runtime: choices, tasks, faults, memory, history.
// Everything here is implemented in rt.cpp, which is NOT instrumented: a call
// into the runtime is atomic with respect to the simulated scheduler.
#pragma once
#include <cstddef>
#include <cstdint>

// Fault kinds (counted only when they actually fire).
#define RT_FAULTS(X) \
	X(short_read) X(read_error) X(write_error) X(key_error) X(sbox_error) \
	X(block_error) X(stream_error) X(alloc_fail) X(alloc_exhausted) \
	X(truncation) X(bit_flip) X(block_lost) X(block_duplicated) X(block_zeroed) X(block_reordered) \
	X(crash) X(torn_write) X(stall) X(latency) X(early_end) \
	X(preempt_access) X(preempt_seam) X(drop_reference) X(small_stack) \
	X(key_short) X(key_long) X(key_flip) X(sbox_short) X(sbox_long)

// "This rare condition was reached" probes.
#define RT_PROBES(X) \
	X(runs) X(ops) X(parallel_sections) X(tasks_spawned) X(lock_contended) \
	X(partial_last_block) X(empty_write) X(empty_stream) X(multi_kb_stream) \
	X(huge_request) X(zero_request) X(refused_unaligned) X(retry_after_fault) \
	X(fault_mid_stream) X(resume_after_crash) X(second_crash) X(branch_from_old) \
	X(finalize_intermediate) X(first_use_race_window) X(failed_load_retried) \
	X(mac_partial) X(mac_empty) X(mac_k2_msb) X(ctr_carry) X(iterator_outlives_stream) \
	X(last_handle_freed) X(deep_stream) X(rejected_damaged_key) X(accepted_valid_key) \
	X(nested_streams) X(channel_full) X(channel_empty) X(read_past_end) \
	X(alloc_in_ctor) X(alloc_absorbed) X(concurrent_same_object) X(dag_nodes) \
	X(resync_checked) X(source_grew_after_end) X(tail_refused) X(mutex_wait) X(over_64k_stream) X(boundary_size) X(dull_values) X(uncached_text) X(dull_key) X(dull_table) X(fixed_buffer) X(over_64k_blocks) X(far_walk) X(user_key) \
	X(another_history) X(reentered) X(similar_key) X(session_abandoned) X(long_measured) X(self_handle) X(odd_locale) X(odd_clock) X(copied_or_held) X(error_storm) X(handle_worn) X(odd_errno) X(clock_read) X(random_read) X(released) X(worked_in_destructor)

namespace rt {

enum Fault {
#define X(n) F_##n,
	RT_FAULTS(X)
#undef X
	F_COUNT
};
enum Probe {
#define X(n) P_##n,
	RT_PROBES(X)
#undef X
	P_COUNT
};

enum Stream { OPS = 0, SCHED = 1, FAULT = 2, DATA = 3, NSTREAMS = 4 };

// --- choices: the only source of nondeterminism -------------------------
// Uniform value in [0, n). 0 is by convention the simplest outcome.
uint64_t choose(int stream, uint64_t n);
// In generation mode records and returns `value`; in replay returns what the
// trace says (0 when the trace is exhausted). Result is clamped to [0, max].
uint64_t propose(int stream, uint64_t value, uint64_t max);
// Raw bits for building a proposed value; 0 while replaying.
uint64_t bits(int stream);
// True with probability permille/1000; the 0 choice means false.
bool chance(int stream, unsigned permille);
// Draws a fault; counts it when it fires. Returns the fault number (>0) or 0.
uint32_t fault(Fault kind, unsigned permille);
// Counts a fault that was decided elsewhere.
void fired(Fault kind, uint64_t n = 1);
void probe(Probe p, uint64_t n = 1);
uint64_t fired_total();

// --- history -----------------------------------------------------------
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void event(uint32_t tag, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0);
[[noreturn]] void violation(const char *cls, const char *fmt, ...)
	__attribute__((format(printf, 2, 3)));
[[noreturn]] void inconclusive(const char *why);
bool verbose();

// --- regions ------------------------------------------------------------
// Code between lib_enter/lib_leave is the code under test: allocation faults
// hit only there. seam_enter/seam_leave bracket simulator call-backs.
int lib_enter();
void lib_leave(int saved);
int seam_enter();
void seam_leave(int saved);
struct Lib { int s; Lib() : s(lib_enter()) {} ~Lib() { lib_leave(s); } };
struct Seam { int s; Seam() : s(seam_enter()) {} ~Seam() { seam_leave(s); } };
// No preemption and no race checking inside (simulator bookkeeping).
void ignore_begin();
void ignore_end();
bool quiet();
struct Quiet { Quiet() { ignore_begin(); } ~Quiet() { ignore_end(); } };

// --- tasks --------------------------------------------------------------
typedef void (*TaskFn)(void *arg, int index);
// Runs n tasks to completion under the simulated scheduler, then returns.
void parallel(int n, TaskFn fn, void *arg);
int self();           // 0 = scenario task, 1.. = parallel tasks
bool in_parallel();
void seam_point();    // explicit scheduling point
void sched_config();  // draws the scheduling strategy for this run
uint64_t now();       // simulated ticks
void odd_environment(); // draws clocks, randomness and errno of this history
void sleep(uint64_t ticks);
void wait_on(const void *what);   // block until notified
void notify(const void *what);
uint64_t steps();
void allow_steps(uint64_t n); // a long history may take more steps
uint64_t work();      // accesses so far, range operations by their length, allocations

// --- memory -------------------------------------------------------------
void alloc_arm(uint64_t nth, bool forever);  // fail the nth lib allocation from now; 0 = off
bool alloc_fired();
uint64_t alloc_count();      // lib allocations so far
uint64_t live_blocks();      // live operator-new blocks
uint64_t live_bytes();
void peak_reset();
uint64_t peak_bytes();       // most live bytes since peak_reset
struct HeapMark { uint64_t live, serial; };
HeapMark heap_mark();
uint64_t leaked_since(const HeapMark &m);   // unreachable blocks allocated since
// --- stack --------------------------------------------------------------
void stack_reset();
uint64_t stack_used();       // deepest use since stack_reset, in bytes
void set_stack_size(uint64_t bytes);   // for tasks spawned later

}  // namespace rt

// Provided by the scenarios.
struct Scenario {
	const char *id;
	const char *name;
	void (*run)();
};
extern const Scenario scenarios[];
extern const int n_scenarios;
void scenario_reset(const char *id); // between two histories of one process
bool ref_selftest();
