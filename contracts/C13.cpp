#include "vc.h"
#include "emp-tool/circuits/float32_eq.cpp"
#include "emp-tool/circuits/float32_le.cpp"
#include "emp-tool/circuits/float32_leq.cpp"
using namespace emp;
//@ all sym=0
static bool b_(const Float& f, int i) { return vc_val(f.value[i].bit); }
static Float mkf(const char* nm) { Float f; vc_fill_wires(f.value.data(), 32, nm); return f; }
static void keep(const Float& x, const Float& y) { for (int i = 0; i < 32; ++i) vc_assert(b_(x, i) == b_(y, i), "float operand unchanged"); }
// subnormals count as zero, as documented in the property
static bool mag_zero(const Float& f) { bool z = true; for (int i = 23; i < 31; ++i) z = z & !b_(f, i); return z; }
static bool is_nan(const Float& f) { bool e = true, m = false; for (int i = 23; i < 31; ++i) e = e & b_(f, i); for (int i = 0; i < 23; ++i) m = m | b_(f, i); return e & m; }
static bool mag_lt(const Float& a, const Float& b) { bool lt = false; for (int i = 0; i < 31; ++i) lt = (!b_(a, i) & b_(b, i)) | ((b_(a, i) == b_(b, i)) & lt); return lt; }
static bool same_bits(const Float& a, const Float& b) { bool e = true; for (int i = 0; i < 32; ++i) e = e & (b_(a, i) == b_(b, i)); return e; }
VC_HARNESS(roundtrip) {
	vc_setup_abs(); u_int32_t u = vc_u32("u"); uint64_t party = vc_choice("party", 0, 2); float f; memcpy(&f, &u, 4); Float a(f, (int)party);
	for (int i = 0; i < 32; ++i) vc_assert(b_(a, i) == ((u >> i) & 1), "wires carry the bit pattern");
	vc_assert(a.size() == 32, "float size");
	double d = a.reveal<double>((int)party), e = (double)f; uint64_t x, y; memcpy(&x, &d, 8); memcpy(&y, &e, 8); vc_assert(x == y, "reveal returns the encoded float");
}
VC_HARNESS(pattern_ops) {
	vc_setup_abs(); Float a = mkf("a"), b = mkf("b"), a0 = a, b0 = b; bool s = vc_bool("s"); Bit c(vc_wire(s));
	Float n = -a, m = a.abs(), x = a ^ b, y = a & b, z = a.If(c, b);
	for (int i = 0; i < 32; ++i) {
		vc_assert(b_(n, i) == (b_(a0, i) != (i == 31)), "negation flips the sign bit only"); vc_assert(b_(m, i) == (b_(a0, i) & (i != 31)), "abs clears the sign bit only");
		vc_assert(b_(x, i) == (b_(a0, i) != b_(b0, i)), "float xor"); vc_assert(b_(y, i) == (b_(a0, i) & b_(b0, i)), "float and"); vc_assert(b_(z, i) == ((s & b_(b0, i)) | (!s & b_(a0, i))), "float select");
	}
	keep(a, a0); keep(b, b0); a ^= b; for (int i = 0; i < 32; ++i) vc_assert(b_(a, i) == (b_(a0, i) != b_(b0, i)), "float xor-assign"); keep(b, b0);
	for (int i = 0; i < 32; ++i) vc_assert(vc_val(a[i].bit) == b_(a, i), "indexing");
}
VC_HARNESS(compare) {
	vc_setup_abs(); Float a = mkf("a"), b = mkf("b"); bool nan = is_nan(a) | is_nan(b), sa = b_(a, 31), sb = b_(b, 31), bz = mag_zero(a) & mag_zero(b);
	bool eq = bz | same_bits(a, b), lt = !bz & ((sa & !sb) | (!sa & !sb & mag_lt(a, b)) | (sa & sb & mag_lt(b, a)));
	bool re = vc_val(a.equal(b).bit), rl = vc_val(a.less_than(b).bit), rq = vc_val(a.less_equal(b).bit);
	vc_assert(nan | (re == eq), "equality agrees with IEEE-754"); vc_assert(nan | (rl == lt), "less-than agrees with IEEE-754"); vc_assert(nan | (rq == (lt | eq)), "less-or-equal agrees with IEEE-754");
}
VC_HARNESS(compare_self) { vc_setup_abs(); Float a = mkf("a"); bool nan = is_nan(a); vc_assert(nan | vc_val(a.equal(a).bit), "equal to itself"); vc_assert(nan | !vc_val(a.less_than(a).bit), "not less than itself"); vc_assert(nan | vc_val(a.less_equal(a).bit), "less or equal to itself"); }
