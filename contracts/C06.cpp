#include "vc.h"
using namespace emp;
static Bit in(const char* n, bool& v) { v = vc_bool(n); Bit b; b.bit = vc_wire(v); return b; }
VC_HARNESS(bit_ops) {
	vc_setup_abs();
	bool x, y, s; Bit a = in("a", x), b = in("b", y), c = in("s", s);
	vc_assert(vc_val((a & b).bit) == (x && y), "Bit & is AND");
	vc_assert(vc_val((a | b).bit) == (x || y), "Bit | is OR");
	vc_assert(vc_val((a ^ b).bit) == (x != y), "Bit ^ is XOR");
	vc_assert(vc_val((!a).bit) == !x, "Bit ! is NOT");
	vc_assert(vc_val((a == b).bit) == (x == y), "Bit == is XNOR");
	vc_assert(vc_val((a != b).bit) == (x != y), "Bit != is XOR");
	vc_assert(vc_val(a.select(c, b).bit) == (s ? y : x), "select returns new value iff selector");
	vc_assert(vc_val(If(c, a, b).bit) == (s ? x : y), "If returns first iff selector");
	vc_assert(vc_val(a.If(c, b).bit) == (s ? y : x), "member If");
	Bit t = a; t ^= b;
	vc_assert(vc_val(t.bit) == (x != y), "xor-assign");
	vc_assert(vc_val(a.bit) == x && vc_val(b.bit) == y && vc_val(c.bit) == s, "operands unchanged");
	Bit p = a, q = b; emp::swap(c, p, q);
	vc_assert(vc_val(p.bit) == (s ? y : x) && vc_val(q.bit) == (s ? x : y), "swap exchanges iff selector");
}
#include "ints.h"
//@ int_if_swap mergeint=1
VC_HARNESS(int_if_swap) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, QN); bool s; Bit c = in("s", s);
	Integer a = mk(n, "a"), b = mk(n, "b"), a0 = a, b0 = b;
	Integer r = If(c, a, b), m = a.If(c, b), l = a.select(c, b);
	vc_assert(r.bits.size() == n && m.bits.size() == n && l.bits.size() == n, "choice keeps the width");
	VC_FORALL(j, n) { vc_assert(at(r, j) == ((s & at(a0, j)) | (!s & at(b0, j))), "integer If returns the first iff the selector is 1"); vc_assert(at(m, j) == ((s & at(b0, j)) | (!s & at(a0, j))), "integer member If"); vc_assert(at(l, j) == ((s & at(b0, j)) | (!s & at(a0, j))), "integer select"); }
	same(a, a0); same(b, b0);
	emp::swap(c, a, b);
	vc_assert(a.bits.size() == n && b.bits.size() == n, "swap keeps the widths");
	VC_FORALL(k, n) { vc_assert(at(a, k) == ((s & at(b0, k)) | (!s & at(a0, k))), "integer swap, first operand"); vc_assert(at(b, k) == ((s & at(a0, k)) | (!s & at(b0, k))), "integer swap, second operand"); }
	vc_assert(vc_val(c.bit) == s, "selector unchanged");
}
//@ float_if_swap sym=0
VC_HARNESS(float_if_swap) {
	vc_setup_abs(); bool s; Bit c = in("s", s); Float a, b; vc_fill_wires(a.value.data(), 32, "a"); vc_fill_wires(b.value.data(), 32, "b"); Float a0 = a, b0 = b;
	Float r = If(c, a, b), m = a.If(c, b);
	for (int j = 0; j < 32; ++j) { bool x = vc_val(a0.value[j].bit), y = vc_val(b0.value[j].bit); vc_assert(vc_val(r.value[j].bit) == ((s & x) | (!s & y)), "float If returns the first iff the selector is 1"); vc_assert(vc_val(m.value[j].bit) == ((s & y) | (!s & x)), "float member If"); vc_assert((vc_val(a.value[j].bit) == x) & (vc_val(b.value[j].bit) == y), "float operands unchanged"); }
	emp::swap(c, a, b);
	for (int j = 0; j < 32; ++j) { bool x = vc_val(a0.value[j].bit), y = vc_val(b0.value[j].bit); vc_assert(vc_val(a.value[j].bit) == ((s & y) | (!s & x)), "float swap, first operand"); vc_assert(vc_val(b.value[j].bit) == ((s & x) | (!s & y)), "float swap, second operand"); }
}
//@ bit_alias sym=0
VC_HARNESS(bit_alias) { vc_setup_abs(); bool x, y; Bit a = in("a", x), b = in("b", y);
	vc_assert(vc_val((a & a).bit) == x, "and with itself"); vc_assert(vc_val((a | a).bit) == x, "or with itself"); vc_assert(!vc_val((a ^ a).bit), "xor with itself"); vc_assert(vc_val((a == a).bit), "equal to itself"); vc_assert(!vc_val((a != a).bit), "differs from itself");
	vc_assert(vc_val(a.select(a, b).bit) == (x & y), "select by itself"); vc_assert(vc_val(If(a, b, a).bit) == (x & y), "If by an operand");
	Bit t = a; t ^= t; vc_assert(!vc_val(t.bit), "xor-assign to itself"); Bit p = b; emp::swap(a, p, p); (void)p;
}
