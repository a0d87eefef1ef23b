#include "aes_spec.h"
//@ all sym=0
typedef unsigned __int128 u128;
static inline u128 U(block a) { u128 r; memcpy(&r, &a, 16); return r; }
static inline block Bk(u128 a) { block r; memcpy(&r, &a, 16); return r; }
// full 256-bit carry-less product from four 64-bit carry-less products (schoolbook, the defining distributive law)
static void prod(block a, block b, u128& lo, u128& hi) {
	u64 x[2], y[2]; memcpy(x, &a, 16); memcpy(y, &b, 16); u128 p00 = U(vc_clmul(x[0], y[0])), p01 = U(vc_clmul(x[0], y[1])), p10 = U(vc_clmul(x[1], y[0])), p11 = U(vc_clmul(x[1], y[1])), m = p01 ^ p10; lo = p00 ^ (m << 64); hi = p11 ^ (m >> 64);
}
// hi*x^128 + lo reduced by x^128 = x^7+x^2+x+1, by definition: fold the high half twice (the first fold leaves at most 7 high bits)
static u128 red(u128 lo, u128 hi) { u128 t = (hi >> 127) ^ (hi >> 126) ^ (hi >> 121); u128 r = lo ^ hi ^ (hi << 1) ^ (hi << 2) ^ (hi << 7); return r ^ t ^ (t << 1) ^ (t << 2) ^ (t << 7); }
static u128 rev(u128 x) { u128 r = 0; for (int i = 0; i < 128; ++i) r |= ((x >> i) & 1) << (127 - i); return r; }
static block smul(block a, block b) { u128 l, h; prod(a, b, l, h); return Bk(red(l, h)); }
VC_HARNESS(mul) { block a = vc_block("a"), b = vc_block("b"), r, s; mul128(a, b, &r, &s); u128 l, h; prod(a, b, l, h); vc_assert(beq(r, Bk(l)) & beq(s, Bk(h)), "unreduced product is the 256-bit carry-less product"); gfmul(a, b, &r); vc_assert(beq(r, smul(a, b)), "product modulo x^128+x^7+x^2+x+1"); }
VC_HARNESS(alias) { block a = vc_block("a"), b = vc_block("b"), c = a, d = b; gfmul(c, b, &c); vc_assert(beq(c, smul(a, b)), "result may overwrite the first operand"); gfmul(a, d, &d); vc_assert(beq(d, smul(a, b)), "result may overwrite the second operand"); }
VC_HARNESS(reduction) { block l = vc_block("l"), h = vc_block("h"); vc_assert(beq(reduce(l, h), Bk(red(U(l), U(h)))), "reduction is modulo the field polynomial");
	// reflected: bit i of a block is the coefficient of x^(127-i); a carry-less product of reflected operands is the reflected product shifted down by one
	u128 L = U(l), H = U(h); u128 ph = H << 1 | L >> 127, pl = L << 1; vc_assert(beq(reduce_reflect(l, h), Bk(rev(red(rev(ph), rev(pl))))), "reflected reduction"); }
VC_HARNESS(reflect) { block a = vc_block("a"), b = vc_block("b"), r; gfmul_reflect(a, b, &r); u128 L, H; prod(a, b, L, H); u128 ph = H << 1 | L >> 127, pl = L << 1; vc_assert(beq(r, Bk(rev(red(rev(ph), rev(pl))))), "bit-reflected product"); }
template<int W> static void vec() {
	u64 n = vc_size("n", 0, 1 << 16, "0,1,2,3,4,5,7,8,9|0..16"); block* a = new block[n + 1]; vc_fill_blocks(a, n + 1, "a"); block* b = new block[n + 1]; vc_fill_blocks(b, n + 1, "b"); block* a0 = new block[n + 1]; memcpy(a0, a, 16 * (n + 1)); block* b0 = new block[n + 1]; memcpy(b0, b, 16 * (n + 1));
	block r[3]; vc_fill_blocks(r, 3, "r"); block g = r[W == 1 ? 2 : 1]; u128 L = 0, H = 0, x = 0; for (u64 i = 0; i < n; ++i) { u128 l, h; prod(a0[i], b0[i], l, h); L ^= l; H ^= h; x ^= U(a0[i]); }
	if (W == 0) { vector_inn_prdt_sum_red(r, a, b, (int)n); vc_assert(beq(r[0], Bk(red(L, H))), "reduced inner product"); vc_assert(beq(r[1], g), "inner product writes one block"); }
	if (W == 1) { vector_inn_prdt_sum_no_red(r, a, b, (int)n); vc_assert(beq(r[0], Bk(L)) & beq(r[1], Bk(H)), "unreduced inner product"); vc_assert(beq(r[2], g), "unreduced inner product writes two blocks"); }
	if (W == 2) { vector_self_xor(r, a, (int)n); vc_assert(beq(r[0], Bk(x)), "XOR of all elements"); vc_assert(beq(r[1], g), "self-xor writes one block"); }
	VC_FORALL(j, n + 1) vc_assert(beq(a[j], a0[j]) & beq(b[j], b0[j]), "vectors unchanged");
}
VC_HARNESS(inner_red) { vec<0>(); }
VC_HARNESS(inner_nored) { vec<1>(); }
VC_HARNESS(self_xor) { vec<2>(); }
VC_HARNESS(templates) { block a[5], b[5], r, q[2], s[2]; vc_fill_blocks(a, 5, "a"); vc_fill_blocks(b, 5, "b"); vector_inn_prdt_sum_red<5>(&r, a, b); block t; vector_inn_prdt_sum_red(&t, a, b, 5); vc_assert(beq(r, t), "fixed-size inner product"); vector_inn_prdt_sum_no_red<5>(q, a, b); vector_inn_prdt_sum_no_red(s, a, b, 5); vc_assert(beq(q[0], s[0]) & beq(q[1], s[1]), "fixed-size unreduced inner product"); vector_self_xor<5>(&r, a); vector_self_xor(&t, a, 5); vc_assert(beq(r, t), "fixed-size self-xor"); }
// The field: powers of the seed, with the contract of the field multiplication seed^i * seed^j = seed^(i+j) in place of its body (the body is proved against polynomial arithmetic above; associativity is the ring law).
static const u64 TAG = 0x706f776572ull;
extern "C" void c_gfmul(__m128i a, __m128i b, __m128i* res) { u64 x[2], y[2]; memcpy(x, &a, 16); memcpy(y, &b, 16); vc_assert((x[1] == TAG) & (y[1] == TAG), "powers are multiplied only with powers already computed"); *res = makeBlock(TAG, x[0] + y[0]); }
//@ powers replace=emp::gfmul=>c_gfmul
VC_HARNESS(powers) {
	u64 n = vc_size("n", 1, 1 << 16, "1,2,3,4,5,6,7,8,9,10,11,12,13,16,29|1..70"); block* c = new block[n + 1]; vc_fill_blocks(c, n + 1, "c"); block g = c[n];
#ifdef VC_NATIVE
	block s = vc_block("s"), e = s; uni_hash_coeff_gen(c, s, (int)n); for (u64 i = 0; i < n; ++i) { vc_assert(beq(c[i], e), "power sequence seed^1..seed^n"); e = smul(e, s); }
#else
	uni_hash_coeff_gen(c, makeBlock(TAG, 1), (int)n); VC_FORALL(i, n) vc_assert(beq(c[i], makeBlock(TAG, i + 1)), "power sequence seed^1..seed^n");
#endif
	vc_assert(beq(c[n], g), "power sequence writes n blocks");
}
VC_HARNESS(packing) {
	GaloisFieldPacking* p = new GaloisFieldPacking; for (int i = 0; i < 128; ++i) vc_assert(beq(p->base[i], Bk((u128)1 << i)), "packing base is 1,x,x^2,...");
}
VC_HARNESS(packing_sum) {
	GaloisFieldPacking* p = new GaloisFieldPacking; block v[128], r[2]; vc_fill_blocks(v, 128, "v"); r[1] = vc_block("g"); block g = r[1]; p->packing(r, v); u128 L = 0, H = 0; for (int i = 0; i < 128; ++i) { u128 x = U(v[i]); L ^= x << i; if (i) H ^= x >> (128 - i); }
	vc_assert(beq(r[0], Bk(red(L, H))), "packing is the sum of v_i x^i"); vc_assert(beq(r[1], g), "packing writes one block");
}
