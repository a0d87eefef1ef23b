#include "ints.h"
// compare-exchange: exchanged exactly when (key i > key j) equals the order bit; other elements and the payload rule
//@ cmp_swap_rule sym=0
VC_HARNESS(cmp_swap_rule) {
	vc_setup_abs(); u64 w = vc_size("w", 1, 64, "1,2,3,5,8,16,32,33|1..40"), pay = vc_choice("pay", 0, 1); bool acc = vc_bool("acc"); Bit ab(vc_wire(acc));
	Integer k[4] = {mk(w, "k0"), mk(w, "k1"), mk(w, "k2"), mk(w, "k3")}, k0[4] = {k[0], k[1], k[2], k[3]}, d[4] = {mk(5, "d0"), mk(5, "d1"), mk(5, "d2"), mk(5, "d3")}, d0[4] = {d[0], d[1], d[2], d[3]};
	cmp_swap(k, pay ? d : (Integer*)nullptr, 1, 3, ab);
	bool gt = false, lt = false; for (u64 i = 0; i < w; ++i) { bool x = at(k[1], i), y = at(k[3], i), a = i + 1 == w ? y : x, b = i + 1 == w ? x : y; gt = (a & !b) | ((a == b) & gt); lt = (b & !a) | ((a == b) & lt); }
	vc_assert(!((acc & gt) | (!acc & lt)), "the two keys come out in the requested order");
	bool eq = true, ex = true; for (u64 i = 0; i < w; ++i) { eq = eq & (at(k[1], i) == at(k0[1], i)) & (at(k[3], i) == at(k0[3], i)); ex = ex & (at(k[1], i) == at(k0[3], i)) & (at(k[3], i) == at(k0[1], i)); vc_assert((at(k[0], i) == at(k0[0], i)) & (at(k[2], i) == at(k0[2], i)), "other keys untouched"); }
	vc_assert(eq | ex, "the two keys are kept or exchanged");
	for (u64 i = 0; i < 5; ++i) { if (pay) { eq = eq & (at(d[1], i) == at(d0[1], i)) & (at(d[3], i) == at(d0[3], i)); ex = ex & (at(d[1], i) == at(d0[3], i)) & (at(d[3], i) == at(d0[1], i)); } else vc_assert((at(d[1], i) == at(d0[1], i)) & (at(d[3], i) == at(d0[3], i)), "no payload given, none touched"); vc_assert((at(d[0], i) == at(d0[0], i)) & (at(d[2], i) == at(d0[2], i)), "other payload untouched"); }
	vc_assert(eq | ex, "the payload is kept or exchanged together with the keys");
}
// zero-one keys: the exact symmetric functions, every 0-1 input and both orders
//@ sort01 sym=0
VC_HARNESS(sort01) {
	vc_setup_abs(); u64 n = vc_size("n", 0, 64, "0..16,23|17..24,33"); bool acc = vc_choice("acc", 0, 1);
	Integer* k = new Integer[n + 2]; for (u64 i = 0; i < n + 2; ++i) { k[i].bits.resize(1); vc_fill_wires(k[i].bits.data(), 1, "k"); }
	Integer lo = k[0], hi = k[n + 1]; bool* s = new bool[n + 2]; for (u64 i = 0; i < n + 2; ++i) s[i] = false;
	for (u64 i = 0; i < n; ++i) { bool x = at(k[i + 1], 0); for (u64 j = n; j-- > 1;) s[j] = s[j] | (s[j - 1] & x); s[0] = s[0] | x; }   // s[j]: at least j+1 ones (a one is -1, the smallest)
	if (acc) emp::sort(k + 1, (int)n); else emp::sort(k + 1, (int)n, (Bit*)nullptr, Bit(false, PUBLIC));
	for (u64 j = 0; j < n; ++j) { vc_assert(k[j + 1].bits.size() == 1, "key width kept"); vc_assert(at(k[j + 1], 0) == s[acc ? j : n - 1 - j], "zero-one keys come out ordered with the same counts"); }
	vc_assert((at(k[0], 0) == at(lo, 0)) & (at(k[n + 1], 0) == at(hi, 0)), "elements around the range untouched");
}
// w-bit keys with index payload: ordered, and the payload names the permutation
//@ sort_keys sym=0
VC_HARNESS(sort_keys) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 8, "1..5|6"), w = vc_size("w", 1, 8, "2,3|4"), pub = vc_choice("pub", 0, 1); bool acc = vc_bool("acc"); Bit ab(vc_wire(acc)); (void)pub;
	Integer* k = new Integer[n]; Integer* d = new Integer[n + 1]; const char* nm[8] = {"k0", "k1", "k2", "k3", "k4", "k5", "k6", "k7"};
	for (u64 i = 0; i < n; ++i) { k[i] = mk(w, nm[i]); d[i] = Integer(3, (int64_t)i, PUBLIC); } d[n] = Integer(3, 7, PUBLIC);
	Integer* k0 = new Integer[n]; for (u64 i = 0; i < n; ++i) k0[i] = k[i];
	emp::sort(k, (int)n, d, ab);
	for (u64 j = 0; j + 1 < n; ++j) {
		bool gt = false, lt = false; for (u64 i = 0; i < w; ++i) { bool x = at(k[j], i), y = at(k[j + 1], i), a = i + 1 == w ? y : x, b = i + 1 == w ? x : y; gt = (a & !b) | ((a == b) & gt); lt = (b & !a) | ((a == b) & lt); }
		vc_assert(!((acc & gt) | (!acc & lt)), "neighbours are in order");
	}
	for (u64 t = 0; t < n; ++t) { bool c1 = false, c2 = false; for (u64 j = 0; j < n; ++j) { bool is = (at(d[j], 0) == (t & 1)) & (at(d[j], 1) == ((t >> 1) & 1)) & (at(d[j], 2) == ((t >> 2) & 1)); c2 = c2 | (c1 & is); c1 = c1 | is; } vc_assert(c1 & !c2, "each payload element occurs exactly once"); }
	for (u64 j = 0; j < n; ++j) for (u64 i = 0; i < w; ++i) { bool v = false; for (u64 t = 0; t < n; ++t) { bool is = (at(d[j], 0) == (t & 1)) & (at(d[j], 1) == ((t >> 1) & 1)) & (at(d[j], 2) == ((t >> 2) & 1)); v = v | (is & at(k0[t], i)); } vc_assert(at(k[j], i) == v, "each key moved together with its payload"); }
	vc_assert(pk(d[n]) == 7, "payload beyond the range untouched");
}
