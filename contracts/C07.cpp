#include "ints.h"
// Reference: binary addition with carry, the definition of two's-complement arithmetic modulo 2^n
static void ref_add(bool* s, u64 n, const bool* a, const bool* b, bool c) { for (u64 i = 0; i < n; ++i) { s[i] = (a[i] != b[i]) != c; c = maj(a[i], b[i], c); } }
static bool* bits_of(const Integer& x, bool inv = false) { bool* r = new bool[x.bits.size()]; for (u64 i = 0; i < x.bits.size(); ++i) r[i] = at(x, i) != inv; return r; }
VC_HARNESS(add) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, QN);
	Integer a = mk(n, "a"), b = mk(n, "b"), a0 = a, b0 = b;
	Integer r = a + b;
	vc_assert(r.bits.size() == n, "sum has the operands' width");
	bool* s = new bool[n]; bool *x = bits_of(a0), *y = bits_of(b0); ref_add(s, n, x, y, false);
	VC_FORALL(j, n) vc_assert(at(r, j) == s[j], "each sum bit is a^b^carry with majority carries");
	if (!vc_symbolic() && n <= 64) vc_assert(pk(r) == ((pk(a0) + pk(b0)) & msk(n)), "sum equals machine addition modulo 2^n");
	same(a, a0); same(b, b0);
	Integer t = a + a; bool* s2 = new bool[n]; ref_add(s2, n, x, x, false);
	VC_FORALL(k, n) vc_assert(at(t, k) == s2[k], "adding a number to itself");
}
VC_HARNESS(sub) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, QN);
	Integer a = mk(n, "a"), b = mk(n, "b"), a0 = a, b0 = b;
	Integer r = a - b;
	vc_assert(r.bits.size() == n, "difference has the operands' width");
	bool* s = new bool[n]; bool *x = bits_of(a0), *y = bits_of(b0, true); ref_add(s, n, x, y, true);
	VC_FORALL(j, n) vc_assert(at(r, j) == s[j], "difference is a + not(b) + 1");
	if (!vc_symbolic() && n <= 64) vc_assert(pk(r) == ((pk(a0) - pk(b0)) & msk(n)), "difference equals machine subtraction modulo 2^n");
	same(a, a0); same(b, b0);
}
VC_HARNESS(neg) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, QN);
	Integer a = mk(n, "a"), a0 = a;
	Integer r = -a;
	vc_assert(r.bits.size() == n, "negation has the operand's width");
	bool* s = new bool[n]; bool* z = new bool[n]; for (u64 i = 0; i < n; ++i) z[i] = false;
	bool* y = bits_of(a0, true); ref_add(s, n, z, y, true);
	VC_FORALL(j, n) vc_assert(at(r, j) == s[j], "negation is not(a) + 1");
	if (!vc_symbolic() && n <= 64) vc_assert(pk(r) == ((0 - pk(a0)) & msk(n)), "negation equals machine negation modulo 2^n");
	same(a, a0);
}
VC_HARNESS(abs) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, QN);
	Integer a = mk(n, "a"), a0 = a;
	Integer r = a.abs();
	vc_assert(r.bits.size() == n, "abs has the operand's width");
	bool sg = at(a0, n - 1);
	bool* m = new bool[n]; bool* s = new bool[n]; bool* x = bits_of(a0); for (u64 i = 0; i < n; ++i) m[i] = sg;
	ref_add(s, n, x, m, false);
	VC_FORALL(j, n) vc_assert(at(r, j) == (s[j] != sg), "abs is (a + sign) xor sign");
	if (!vc_symbolic() && n <= 64) { int64_t v = sx(pk(a0), n); vc_assert(pk(r) == ((v < 0 ? 0 - (u64)v : (u64)v) & msk(n)), "abs equals machine absolute value modulo 2^n"); }
	same(a, a0);
}
