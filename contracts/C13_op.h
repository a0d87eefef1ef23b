#include "vc.h"
#include OPFILE
using namespace emp;
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
static const uint32_t ref_gates[] = {
#include OPREF
};
// the pinned reference circuit, evaluated on bits
static void reference(bool* w, const uint32_t* g, uint64_t n) {
	for (uint64_t i = 0; i < n; ++i) { bool x = w[g[4 * i]], y = w[g[4 * i + 1]]; uint32_t t = g[4 * i + 3]; w[g[4 * i + 2]] = t == 0 ? (x & y) : t == 1 ? (x != y) : t == 2 ? !x : (x | y); }
}
extern "C" void CAT(h_f_, OPNAME)() {
	vc_setup_abs(); Float a, b; vc_fill_wires(a.value.data(), 32, "a"); vc_fill_wires(b.value.data(), 32, "b"); Float a0 = a, b0 = b;
	auto r = OPEXPR;
	bool* w = new bool[OPWIRES]; for (int i = 0; i < OPWIRES; ++i) w[i] = false; for (int i = 0; i < 32; ++i) { w[i] = vc_val(a0.value[i].bit); if (OPARITY == 2) w[32 + i] = vc_val(b0.value[i].bit); }
	reference(w, ref_gates, sizeof(ref_gates) / 16);
#if OPOUTS > 1
	for (int i = 0; i < OPOUTS; ++i) vc_assert(vc_val(r.value[i].bit) == w[OPWIRES - OPOUTS + i], "result bit equals the reference circuit");
	if (OPOUTS == 31) vc_assert(!vc_val(r.value[31].bit), "sign of a non-negative result is zero");
#else
	vc_assert(vc_val(r.bit) == w[OPWIRES - 1], "result bit equals the reference circuit");
#endif
	for (int i = 0; i < 32; ++i) vc_assert((vc_val(a.value[i].bit) == vc_val(a0.value[i].bit)) & (vc_val(b.value[i].bit) == vc_val(b0.value[i].bit)), "operands unchanged");
}
