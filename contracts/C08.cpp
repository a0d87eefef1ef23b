#include "ints.h"
// ---- contracts of the adder/subtractor/negation blocks as executable specifications; each is proved against the code below and then stands for it in callers
extern "C" void c_add(Bit* d, Bit* co, const Bit* a, const Bit* b, const Bit* ci, int n) {
	if (n == 0) { if (ci && co) *co = *ci; return; }
	bool c = ci ? vc_val(ci->bit) : false;
	for (int i = 0; i < n; ++i) { bool x = vc_val(a[i].bit), y = vc_val(b[i].bit); d[i].bit = vc_wire((x != y) != c); c = maj(x, y, c); }
	if (co) co->bit = vc_wire(c);
}
extern "C" void c_sub(Bit* d, Bit* bo, const Bit* a, const Bit* b, const Bit* bi, int n) {
	if (n == 0) { if (bi && bo) *bo = *bi; return; }
	bool c = bi ? vc_val(bi->bit) : false;
	for (int i = 0; i < n; ++i) { bool x = vc_val(a[i].bit), y = vc_val(b[i].bit); d[i].bit = vc_wire((x != y) != c); c = maj(!x, y, c); }
	if (bo) bo->bit = vc_wire(c);
}
static bool* vals(const Bit* a, u64 n) { bool* r = new bool[n]; for (u64 i = 0; i < n; ++i) r[i] = vc_val(a[i].bit); return r; }
template<typename F> static void addsub(F f, bool sub) {
	vc_setup_abs(); u64 n = vc_size("n", 0, 1 << 20, "0,1,2,3,8,33|0..20,64"); u64 v = vc_choice("form", 0, 7);
	Integer a = mk(n + 1, "a"), b = mk(n + 1, "b"), d = mk(n + 1, "d"), d0 = d; Bit ci = mkbit("ci"), co = mkbit("co0"), co0 = co;
	bool *x = vals(a.bits.data(), n), *y = vals(b.bits.data(), n); bool cin = (v & 1) ? vc_val(ci.bit) : false;
	Bit* dst = (v & 4) ? a.bits.data() : d.bits.data();                   // aliased with the first operand as mul and div use it
	f(dst, (v & 2) ? &co : nullptr, a.bits.data(), b.bits.data(), (v & 1) ? &ci : nullptr, (int)n);
	bool* s = new bool[n]; bool c = cin; for (u64 i = 0; i < n; ++i) { s[i] = (x[i] != y[i]) != c; c = maj(sub ? !x[i] : x[i], y[i], c); }
	VC_FORALL(j, n) vc_assert(vc_val(dst[j].bit) == s[j], "each result bit is the ripple-carry bit");
	if ((v & 2) && (n > 0 || (v & 1))) vc_assert(vc_val(co.bit) == c, "carry out");
	if (!(v & 2)) vc_assert(vc_val(co.bit) == vc_val(co0.bit), "no carry written when none is requested");
	VC_FORALL(k, n) vc_assert(vc_val(b.bits[k].bit) == y[k], "second operand unchanged");
	vc_assert(vc_val(d.bits[n].bit) == vc_val(d0.bits[n].bit), "nothing written past the result");
}
VC_HARNESS(add_full) { addsub(add_full, false); }
VC_HARNESS(sub_full) { addsub(sub_full, true); }
VC_HARNESS(cond_neg) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, "1,2,3,8,33|1..20,64"); Integer a = mk(n, "a"), a0 = a; Bit c = mkbit("c"); bool cv = vc_val(c.bit);
	condNeg(c, a.bits.data(), a.bits.data(), (int)n);
	bool k = cv; bool* s = new bool[n]; for (u64 i = 0; i < n; ++i) { bool x = at(a0, i) != cv; s[i] = x != k; k = x & k; }
	VC_FORALL(j, n) vc_assert(at(a, j) == s[j], "conditional negation is (x xor c) + c");
	if (!vc_symbolic() && n <= 64) vc_assert(pk(a) == ((cv ? 0 - pk(a0) : pk(a0)) & msk(n)), "conditional negation equals machine negation");
}
VC_HARNESS(if_then_else) {
	vc_setup_abs(); u64 n = vc_size("n", 0, 1 << 20, "0,1,3,8|0..20"); u64 v = vc_choice("alias", 0, 2); Integer a = mk(n + 1, "a"), b = mk(n + 1, "b"), d = mk(n + 1, "d"), a0 = a, b0 = b; Bit c = mkbit("c"); bool cv = vc_val(c.bit);
	Bit* t = v == 0 ? d.bits.data() : v == 1 ? a.bits.data() : b.bits.data();
	ifThenElse(t, a.bits.data(), b.bits.data(), (int)n, c);
	VC_FORALL(j, n) vc_assert(vc_val(t[j].bit) == (cv ? at(a0, j) : at(b0, j)), "chooses the first source iff the condition is 1");
}
//@ mul_small sym=0
VC_HARNESS(mul_small) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 16, "1,2,3,4,5,6,7|8");
	Integer a = mk(n, "a"), b = mk(n, "b"), a0 = a, b0 = b; Integer r = a * b;
	vc_assert(r.bits.size() == n, "product has the operands' width");
	vc_assert(pk(r) == ((pk(a0) * pk(b0)) & msk(n)), "product equals machine product modulo 2^n");
	same(a, a0); same(b, b0);
	Integer q = a * a; vc_assert(pk(q) == ((pk(a0) * pk(a0)) & msk(n)), "squaring equals machine product modulo 2^n");
}
// schoolbook product: sum over i of b_i * (a << i), added with the ripple-carry definition
//@ mul_ref sym=0
VC_HARNESS(mul_ref) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 4096, "1..10,16,31,32,33,64|1..66,128");
	Integer a = mk(n, "a"), b = mk(n, "b"), a0 = a, b0 = b; Integer r = a * b;
	bool* s = new bool[n]; for (u64 i = 0; i < n; ++i) s[i] = false;
	for (u64 i = 0; i < n; ++i) { bool c = false; for (u64 k = 0; k + i < n; ++k) { bool x = s[i + k], y = at(a0, k) & at(b0, i); s[i + k] = (x != y) != c; c = maj(x, y, c); } }
	vc_assert(r.bits.size() == n, "wide product has the operands' width");
	VC_FORALL(j, n) vc_assert(at(r, j) == s[j], "product is the schoolbook sum of shifted partial products");
}
//@ div_small sym=0
VC_HARNESS(div_small) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 16, "1,2,3,4,5,6|7");
	Integer a = mk(n, "a"), b = mk(n, "b"), a0 = a, b0 = b; int64_t x = sx(pk(a0), n), y = sx(pk(b0), n); vc_assume(y != 0);
	Integer q = a / b, r = a % b;
	vc_assert(q.bits.size() == n && r.bits.size() == n, "quotient and remainder have the operands' width");
	vc_assert(pk(q) == ((u64)(x / y) & msk(n)), "quotient truncates toward zero"); vc_assert(pk(r) == ((u64)(x % y) & msk(n)), "remainder has the dividend's sign");
	vc_assert(((pk(q) * pk(b0) + pk(r)) & msk(n)) == pk(a0), "quotient*divisor+remainder equals the dividend");
	same(a, a0); same(b, b0);
}
// restoring division of magnitudes: at each step the remainder is reduced by the shifted divisor when it fits
//@ div_ref sym=0
VC_HARNESS(div_ref) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 4096, "1..10,16,32,33|1..40,63,64,65");
	Integer a = mk(n, "a"), b = mk(n, "b"), q(b), r(b);
	bool *x = vals(a.bits.data(), n), *y = vals(b.bits.data(), n);
	div_full(q.bits.data(), r.bits.data(), a.bits.data(), b.bits.data(), (int)n);
	bool* rem = new bool[n]; for (u64 i = 0; i < n; ++i) rem[i] = x[i];
	bool* t = new bool[n]; bool* qq = new bool[n]; bool* of = new bool[n]; of[0] = false; for (u64 i = 1; i < n; ++i) of[i] = of[i - 1] | y[n - i];
	for (u64 i = n; i-- > 0;) {
		bool c = false; for (u64 k = 0; k + i < n; ++k) { t[k] = (rem[i + k] != y[k]) != c; c = maj(!rem[i + k], y[k], c); }
		bool nofit = c | of[i];                                          // divisor<<i exceeds the remainder (borrow, or bits shifted out)
		for (u64 k = 0; k + i < n; ++k) rem[i + k] = (nofit & rem[i + k]) | (!nofit & t[k]);
		qq[i] = !nofit;
	}
	VC_FORALL(j, n) { vc_assert(at(q, j) == qq[j], "quotient bits of restoring division"); vc_assert(at(r, j) == rem[j], "remainder bits of restoring division"); }
}
static bool* ref_mul(const bool* a, const bool* b, u64 n) { bool* s = new bool[n]; for (u64 i = 0; i < n; ++i) s[i] = false; for (u64 i = 0; i < n; ++i) { bool c = false; for (u64 k = 0; k + i < n; ++k) { bool x = s[i + k], y = a[k] & b[i]; s[i + k] = (x != y) != c; c = maj(x, y, c); } } return s; }
static bool* ref_cneg(const bool* a, bool g, u64 n) { bool* r = new bool[n]; bool c = g; for (u64 i = 0; i < n; ++i) { bool x = a[i] != g; r[i] = x != c; c = x & c; } return r; }
// signed remainder (sign of the dividend) by restoring division of the magnitudes
static bool* ref_mod(const bool* a, const bool* b, u64 n) {
	bool* rem = ref_cneg(a, a[n - 1], n); bool* y = ref_cneg(b, b[n - 1], n); bool* t = new bool[n]; bool* of = new bool[n]; of[0] = false; for (u64 i = 1; i < n; ++i) of[i] = of[i - 1] | y[n - i];
	for (u64 i = n; i-- > 0;) { bool c = false; for (u64 k = 0; k + i < n; ++k) { t[k] = (rem[i + k] != y[k]) != c; c = maj(!rem[i + k], y[k], c); } bool no = c | of[i]; for (u64 k = 0; k + i < n; ++k) rem[i + k] = (no & rem[i + k]) | (!no & t[k]); }
	return ref_cneg(rem, a[n - 1], n);
}
//@ modexp_ref sym=0
VC_HARNESS(modexp_ref) {
	vc_setup_abs(); u64 n = vc_size("n", 2, 64, "2,4,8|3,5,6,7"), m = vc_size("m", 1, 64, "1,3,8,9|2,4,5,6");
	Integer a = mk(n, "a"), p = mk(m, "p"), q = mk(n, "q"); bool *base = vals(a.bits.data(), n), *qq = vals(q.bits.data(), n), *v = new bool[n]; for (u64 i = 0; i < n; ++i) v[i] = i == 0;
	Integer r = a.modExp(p, q);
	for (u64 i = 0; i < m; ++i) { bool* t = ref_mod(ref_mul(v, base, n), qq, n); bool e = at(p, i); for (u64 k = 0; k < n; ++k) v[k] = (e & t[k]) | (!e & v[k]); base = ref_mod(ref_mul(base, base, n), qq, n); }
	VC_FORALL(j, n) vc_assert(at(r, j) == v[j], "modular power takes one multiplication per set exponent bit and one squaring per bit");
}
//@ modexp sym=0
VC_HARNESS(modexp) {
	vc_setup_abs(); u64 n = vc_size("n", 4, 64, "5|6,7"), m = vc_size("m", 1, 64, "1,2|3");
	Integer a = mk(n, "a"), p = mk(m, "p"), q = mk(n, "q"), a0 = a;
	int64_t base = sx(pk(a), n), qq = sx(pk(q), n); u64 e = pk(p);
	vc_assume(qq >= 2 && base >= 0 && base < qq && qq * qq <= (int64_t)msk(n - 1));
	Integer r = a.modExp(p, q);
	u64 v = 1; u64 bb = base; for (u64 i = 0; i < m; ++i) { u64 t = (v * bb) % (u64)qq; v = ((e >> i) & 1) ? t : v; bb = (bb * bb) % (u64)qq; }
	vc_assert(r.bits.size() == n, "modular power has the base's width"); vc_assert(pk(r) == v, "modular power by square and multiply");
	same(a, a0);
}
