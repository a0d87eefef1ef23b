#pragma once
#include <random>
#include "vc_rt.h"
namespace std { struct vc_random_device { vc_random_device(const char*) {} uint32_t operator()() { return vc_u32("rd"); } }; }
#define random_device vc_random_device
#include "aes_spec.h"
#include "emp-tool/gc/halfgate_gen.h"
#include "emp-tool/gc/halfgate_eva.h"
#include "emp-tool/gc/privacy_free_gen.h"
#include "emp-tool/gc/privacy_free_eva.h"
// ghost lossless channel between the garbler and the evaluator
struct Chan { block q[16]; int w, r; Chan() : w(0), r(0) {}
	void send_block(const block* d, size_t n) { for (size_t i = 0; i < n; ++i) q[w++] = d[i]; }
	void recv_block(block* d, size_t n) { for (size_t i = 0; i < n; ++i) { vc_assert(r < w, "evaluator receives only what the garbler sent"); d[i] = q[r++]; } }
	void send_data(const void* d, size_t n) { send_block((const block*)d, n / 16); } void recv_data(void* d, size_t n) { recv_block((block*)d, n / 16); } void flush() {} };
static inline block mk(block x, bool one, block delta) { return one ? x ^ delta : x; }
static inline block lsb(block x, bool b) { u64 w[2]; memcpy(w, &x, 16); return makeBlock(w[1], (w[0] & ~1ull) | (u64)b); }
static inline bool lo(block x) { u64 w[2]; memcpy(w, &x, 16); return w[0] & 1; }
