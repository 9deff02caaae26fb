// Units of library work with a known right answer, used by several scenarios.
#pragma once
#include "seams.h"

namespace sim {

struct Env {
	MagmaParams mp;
	MagmaKey mk;
	bool has_kuz = false;
	KuzParams kp;
	shared_ptr<const kuz::Key> kk;
};
struct Job {
	std::string name;
	std::function<Bytes()> run;
	Bytes want;
};

enum JobKind {
	J_CFB_ENC, J_CFB_DEC, J_ECB_ENC, J_ECB_DEC, J_ECB_DEC_CONTAINER, J_MAGMA_MAC,
	J_GOST_MAC, J_MAGMA_BLOCK, J_MAGMA_DAG, J_MAGMA_KEY,
	J_KUZ_FIRST,
	J_KUZ_BLOCK = J_KUZ_FIRST, J_KUZ_MAC, J_KUZ_MAC_SIM, J_KUZ_CTR, J_KUZ_CTR_SIM, J_KUZ_MAC_CTR,
	J_KUZ_DAG, J_KUZ_KEY,
	J_COUNT
};
Env gen_env(bool kuz);
// prebuilt: the library objects are made now and shared by every run();
// otherwise each run() makes its own. size: bytes of data, exact if given.
Job make_job(const Env &e, int kind, bool prebuilt, size_t max_size);
Job make_sized_job(const Env &e, int kind, bool prebuilt, size_t size);
void check_job(const Job &j, const Bytes &got);
vector<size_t> gen_pieces(size_t total, size_t unit);
Bytes run_sink(shared_ptr<const Sink> s, const Bytes &data, const vector<size_t> &pieces);
Bytes run_source(shared_ptr<const Source> s, const vector<size_t> &pieces);
vector<uint64_t> words(const vector<ref::U128> &b, bool half);
vector<ref::U128> gen_blocks(size_t n);
// Walks a stream through its iterators; yields values, sizes and order.
Bytes walk(const shared_ptr<const kuz::Iterator> &first, size_t max);
uint64_t fwd(const ref::Magma &m, uint64_t v);
uint64_t bwd(const ref::Magma &m, uint64_t v);

struct MagmaNode { shared_ptr<const magma::Block> b; uint64_t v; unsigned cost; };
vector<MagmaNode> gen_magma_dag(const Env &e, int n);
struct KuzNode { shared_ptr<const kuz::Block> b; ref::U128 v; unsigned cost; };
vector<KuzNode> gen_kuz_dag(const Env &e, int n);

}  // namespace sim
