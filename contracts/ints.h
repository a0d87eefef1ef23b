#pragma once
#include "vc.h"
using namespace emp;
typedef uint64_t u64; typedef __uint128_t u128;
#define QN "1,2,3,4,7,8,16,31,32,33,63,64,65|1..70,96,127,128,129"
// an integer of n arbitrary wires
static inline Integer mk(u64 n, const char* nm) { Integer r; r.bits.resize(n); vc_fill_wires(r.bits.data(), n, nm); return r; }
static inline Bit mkbit(const char* nm) { return Bit(vc_wire(vc_bool(nm))); }
static inline bool at(const Integer& x, u64 i) { return vc_val(x.bits[i].bit); }
// value of the low min(n,64) bits
static inline u64 pk(const Integer& x) { u64 r = 0; for (u64 i = 0; i < x.bits.size() && i < 64; ++i) r |= (u64)at(x, i) << i; return r; }
static inline u64 msk(u64 n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
static inline int64_t sx(u64 v, u64 n) { return n >= 64 ? (int64_t)v : (int64_t)(v << (64 - n)) >> (64 - n); }
static inline bool maj(bool a, bool b, bool c) { return (a & b) | (c & (a != b)); }
static inline void same(const Integer& x, const Integer& y) { vc_assert(x.bits.size() == y.bits.size(), "operand keeps its width"); VC_FORALL(j, x.bits.size()) vc_assert(at(x, j) == at(y, j), "operand is not modified"); }
