#include "ints.h"
// signed order by definition: at the highest differing bit; the sign bit counts negatively
static bool ref_lt(const Integer& a, const Integer& b) { bool lt = false; u64 n = a.bits.size();
	for (u64 i = 0; i + 1 < n; ++i) { bool x = at(a, i), y = at(b, i); lt = (x != y) ? y : lt; }
	bool x = at(a, n - 1), y = at(b, n - 1); return (x != y) ? x : lt; }
static bool ref_eq(const Integer& a, const Integer& b) { bool e = true; for (u64 i = 0; i < a.bits.size(); ++i) e = e & (at(a, i) == at(b, i)); return e; }
VC_HARNESS(order) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, QN);
	Integer a = mk(n, "a"), b = mk(n, "b"), a0 = a, b0 = b;
	bool lt = vc_val((a < b).bit), le = vc_val((a <= b).bit), gt = vc_val((a > b).bit), ge = vc_val((a >= b).bit);
	bool rl = ref_lt(a0, b0), rg = ref_lt(b0, a0);
	vc_assert(lt == rl, "< is the signed order"); vc_assert(gt == rg, "> is the converse signed order");
	vc_assert(ge == !rl, ">= is the complement of <"); vc_assert(le == !rg, "<= is the complement of >");
	if (!vc_symbolic() && n <= 64) { int64_t x = sx(pk(a0), n), y = sx(pk(b0), n); vc_assert(lt == (x < y), "< agrees with machine comparison"); vc_assert(ge == (x >= y), ">= agrees with machine comparison"); vc_assert(gt == (x > y), "> agrees with machine comparison"); vc_assert(le == (x <= y), "<= agrees with machine comparison"); }
	same(a, a0); same(b, b0);
}
VC_HARNESS(equal) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, QN);
	Integer a = mk(n, "a"), b = mk(n, "b"), a0 = a, b0 = b;
	bool eq = vc_val((a == b).bit), ne = vc_val((a != b).bit), re = ref_eq(a0, b0);
	vc_assert(eq == re, "== is bitwise equality"); vc_assert(ne == !re, "!= is its complement");
	if (!vc_symbolic() && n <= 64) vc_assert(eq == (pk(a0) == pk(b0)), "== agrees with machine equality");
	same(a, a0); same(b, b0);
	vc_assert(vc_val((a == a).bit), "every value equals itself"); 
}
//@ trichotomy sym=0
VC_HARNESS(trichotomy) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, "1,2,5,8,16,33|1..40");
	Integer a = mk(n, "a"), b = mk(n, "b");
	int lt = vc_val((a < b).bit), eq = vc_val((a == b).bit), gt = vc_val((a > b).bit);
	vc_assert(lt + eq + gt == 1, "exactly one of <, ==, > holds");
}
