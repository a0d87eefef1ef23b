#include "gfs.h"
#include "vc.h"
using namespace emp;
typedef uint64_t u64; typedef int64_t i64; typedef PlainCircExec PC;
// a wire: one of the public constants, or a secret value with any wire index
struct W { block b; bool pub, val; i64 idx; };
static u64 lo(block b) { return ((u64*)&b)[0]; }
static u64 hi(block b) { return ((u64*)&b)[1]; }
static block raw(u64 k, i64 i) { block r; ((u64*)&r)[0] = k; ((u64*)&r)[1] = (u64)i; return r; }
static W wire(PC& c, int k, i64 idx) { W w; w.pub = k < 2; w.val = k & 1; w.idx = w.pub ? 0 : idx; w.b = w.pub ? c.public_label(w.val) : raw(w.val ? PC::S1 : PC::S0, idx); return w; }
static bool eq(block a, block b) { return (lo(a) == lo(b)) & (hi(a) == hi(b)); }
struct St { i64 gid; u64 gates, ands; };
static St any(PC& c) { St s; s.gid = (i64)vc_sym("gid", 0, 1ull << 48); s.gates = vc_sym("gates", 0, 1ull << 48); s.ands = vc_sym("ands", 0, 1ull << 48); c.gid = s.gid; c.gates = s.gates; c.ands = s.ands; return s; }
