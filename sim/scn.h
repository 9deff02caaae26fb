#pragma once
namespace sim {
void c01_cfb_split();
void c02_cfb_read();
void c03_ecb();
void c04_pipeline();
void c05_fault_atomicity();
void c06_crash_resume();
void c07_corruption();
void c08_sharing();
void c09_caches();
void c10_alloc();
void c11_magma_mac();
void c12_kuz_mac();
void c13_ctr();
void c14_lifetime();
void c15_stack();
void c16_damaged_key();
void c17_branching();
void c18_dialogue();
void c19_follow();
void c24_cost();
void c25_independence();
void c26_release();
}  // namespace sim
