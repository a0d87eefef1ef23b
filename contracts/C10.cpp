#include "ints.h"
VC_HARNESS(bitwise) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, QN);
	Integer a = mk(n, "a"), b = mk(n, "b"), a0 = a, b0 = b; Bit s = mkbit("s"); bool sv = vc_val(s.bit);
	Integer x = a & b, y = a | b, z = a ^ b, w = a.select(s, b), u = a; Integer v = (u ^= b);
	Integer f = If(s, a, b), g = a.If(s, b);
	vc_assert(x.bits.size() == n && y.bits.size() == n && z.bits.size() == n && w.bits.size() == n && u.bits.size() == n && v.bits.size() == n && f.bits.size() == n && g.bits.size() == n, "results have the operands' width");
	VC_FORALL(j, n) {
		bool p = at(a0, j), q = at(b0, j);
		vc_assert(at(x, j) == (p & q), "and is bit by bit"); vc_assert(at(y, j) == (p | q), "or is bit by bit"); vc_assert(at(z, j) == (p != q), "xor is bit by bit");
		vc_assert(at(u, j) == (p != q), "xor-assign is bit by bit"); vc_assert(at(v, j) == (p != q), "xor-assign returns the new value");
		vc_assert(at(w, j) == (sv ? q : p), "select takes the argument iff the selector is 1"); vc_assert(at(f, j) == (sv ? p : q), "If takes the first iff the selector is 1"); vc_assert(at(g, j) == (sv ? q : p), "member If takes the argument iff the selector is 1");
	}
	same(a, a0); same(b, b0);
}
VC_HARNESS(shift_public) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, "1,2,3,8,33|1..34,64"), k;
	if (vc_symbolic()) k = vc_sym("k", 0, 1ull << 40); else { k = vc_choice("k", 0, n + 5); if (k > n + 2) k = 1ull << (k == n + 3 ? 31 : k == n + 4 ? 32 : 40); }
	Integer a = mk(n, "a"), a0 = a;
	Integer l = a << k, r = a >> k;
	vc_assert(l.bits.size() == n && r.bits.size() == n, "shifts keep the width");
	VC_FORALL(j, n) {
		if (j >= k) vc_assert(at(l, j) == at(a0, j - k), "left shift moves bits up"); else vc_assert(!at(l, j), "left shift fills with zero");
		if (j + k < n) vc_assert(at(r, j) == at(a0, j + k), "right shift moves bits down"); else vc_assert(!at(r, j), "right shift fills with zero");
	}
	same(a, a0);
}
//@ shift_secret sym=0
VC_HARNESS(shift_secret) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 64, "1,2,3,4,5,8,9,16,17,24|1..33,64"), m = vc_size("m", 0, 3, "0..2|0..3"); 
	u64 w = 1; while ((1ull << w) < n) ++w; w += 1 + m * 3;     // selector wide enough for any amount below n plus sign, narrow to wide
	if (m == 2) w = n;                                           // same width as the value
	Integer a = mk(n, "a"), s = mk(w, "s"), a0 = a, s0 = s;
	u64 k = pk(s0); vc_assume(!at(s0, w - 1) && k < n);
	Integer l = a << s, r = a >> s;
	vc_assert(l.bits.size() == n && r.bits.size() == n, "secret shifts keep the width");
	u64 v = pk(a0);
	vc_assert(pk(l) == ((v << k) & msk(n)), "secret left shift equals the public shift"); vc_assert(pk(r) == (v >> k), "secret right shift equals the public shift");
	same(a, a0); same(s, s0);
}
VC_HARNESS(resize) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, "1,2,8,33|1..20"), m = vc_size("m", 1, 1 << 20, "1,2,7,8,9,34,70|1..20,64"); bool sg = vc_bool("sg");
	Integer a = mk(n, "a"), a0 = a; bool top = at(a0, n - 1);
	Integer& r = a.resize(m, sg);
	vc_assert(&r == &a, "resize works in place"); vc_assert(a.bits.size() == m, "resize sets the width");
	VC_FORALL(j, m) { if (j < n) vc_assert(at(a, j) == at(a0, j), "resize keeps the low bits"); else vc_assert(at(a, j) == (sg & top), "resize extends by the sign bit or by zero"); }
}
VC_HARNESS(resize_default) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, "1,2,8"), m = vc_size("m", 1, 1 << 20, "1,7,9");
	Integer a = mk(n, "a"), a0 = a; bool top = at(a0, n - 1); a.resize(m);
	vc_assert(a.bits.size() == m, "resize sets the width by default too");
	VC_FORALL(j, m) { if (j < n) vc_assert(at(a, j) == at(a0, j), "default resize keeps the low bits"); else vc_assert(at(a, j) == top, "default resize sign-extends"); }
}
//@ counts sym=0
VC_HARNESS(counts) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 4096, "1,2,3,4,5,6,7,8,9,12,15,16,17|1..24,32,33");
	Integer a = mk(n, "a"), a0 = a;
	Integer h = a.hamming_weight();
	u64 c = 0; for (u64 i = 0; i < n; ++i) c += at(a0, i);
	u64 need = 1; while ((1ull << need) <= n) ++need;
	vc_assert(h.bits.size() >= need || (n == 1 && h.bits.size() >= 1), "hamming weight result is wide enough");
	vc_assert(pk(h) == c, "hamming weight counts the one bits");
	same(a, a0);
}
//@ lzeros sym=0
VC_HARNESS(lzeros) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 4096, "1,2,3,4,5,6,7,8,9,12,15,16,17|1..24,32");
	Integer a = mk(n, "a"), a0 = a;
	Integer z = a.leading_zeros(); bool seen = false; u64 lz = 0;
	for (u64 i = n; i-- > 0;) { seen = seen | at(a0, i); lz += !seen; }
	u64 need = 1; while ((1ull << need) <= n) ++need;
	vc_assert(z.bits.size() >= need || (n == 1 && z.bits.size() >= 1), "leading zeros result is wide enough");
	vc_assert(pk(z) == lz, "leading zeros counts the zero bits above the highest one");
	same(a, a0);
}
