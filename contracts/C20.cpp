#include "aes_spec.h"
//@ all sym=0
VC_HARNESS(transpose) {
	u64 r = vc_size("rows", 1, 4096, "1,2,3,4,5,7|1..9") * 8, c = vc_size("cols", 1, 4096, "1,2,3,4,5|1..9,16,17") * 8; u64 nb = r * c / 8;
	uint8_t* in = new uint8_t[nb]; vc_fill_bytes(in, nb, "in"); uint8_t* i0 = new uint8_t[nb]; memcpy(i0, in, nb); uint8_t* out = new uint8_t[nb]; vc_havoc(out, nb);
	sse_trans(out, in, r, c);
	for (u64 y = 0; y < c; ++y) for (u64 xb = 0; xb < r / 8; ++xb) { uint8_t e = 0; for (int k = 0; k < 8; ++k) { u64 row = xb * 8 + k; e |= (uint8_t)(((i0[(row * c + y) / 8] >> (y % 8)) & 1) << k); } vc_assert(out[y * (r / 8) + xb] == e, "transpose moves bit (r,c) to (c,r)"); }
	for (u64 k = 0; k < nb; ++k) vc_assert(in[k] == i0[k], "transpose leaves its input unchanged");
}
template<int W> static void xorarr() {
	u64 n = vc_size("n", 0, 1 << 20, "0,1,2,7,8,33|0..40"), al = vc_choice("alias", 0, W ? 1 : 2); block* x = new block[n + 1]; vc_fill_blocks(x, n + 1, "x"); block* y = new block[n + 1]; vc_fill_blocks(y, n + 1, "y"); block* x0 = new block[n + 1]; memcpy(x0, x, 16 * (n + 1)); block* y0 = new block[n + 1]; memcpy(y0, y, 16 * (n + 1));
	block* r = al == 1 ? x : al == 2 ? y : new block[n + 1]; if (al == 0) vc_fill_blocks(r, n + 1, "r"); block g = r[n]; block k = vc_block("k");
	if (W) xorBlocks_arr(r, x, k, (int)n); else xorBlocks_arr(r, x, y, (int)n);
	VC_FORALL(j, n) vc_assert(beq(r[j], W ? x0[j] ^ k : x0[j] ^ y0[j]), "array XOR is elementwise"); vc_assert(beq(r[n], g), "array XOR writes n blocks");
	if (al != 1) VC_FORALL(j, n + 1) vc_assert(beq(x[j], x0[j]), "first operand unchanged"); if (al != 2) VC_FORALL(j, n + 1) vc_assert(beq(y[j], y0[j]), "second operand unchanged");
}
VC_HARNESS(xor_arr) { xorarr<0>(); }
VC_HARNESS(xor_const) { xorarr<1>(); }
VC_HARNESS(cmp) {
	u64 n = vc_size("n", 0, 1 << 20, "0,1,2,3,9|0..20"); block* x = new block[n + 1]; vc_fill_blocks(x, n + 1, "x"); block* y = new block[n + 1]; vc_fill_blocks(y, n + 1, "y"); bool e = true; for (u64 i = 0; i < n; ++i) e = e & beq(x[i], y[i]);
	vc_assert(cmpBlock(x, y, (int)n) == e, "comparison is true exactly when all blocks are equal");
}
VC_HARNESS(cmp_same) { u64 n = vc_size("n", 0, 1 << 20, "0,1,5,16|0..30"); block* x = new block[n + 1]; vc_fill_blocks(x, n + 1, "x"); block* y = new block[n + 1]; memcpy(y, x, 16 * (n + 1)); vc_assert(cmpBlock(x, y, (int)n), "equal arrays compare equal"); u64 k = vc_sym("k", 0, 1ull << 40); if (n) { u64 p = vc_choice("p", 0, n - 1), b = vc_choice("b", 0, 127); u64 w[2]; memcpy(w, y + p, 16); w[b / 64] ^= 1ull << (b % 64); memcpy(y + p, w, 16); vc_assert(!cmpBlock(x, y, (int)n), "arrays differing in one bit compare different"); } }
VC_HARNESS(bits) {
	block a = vc_block("a"); u64 w[2]; memcpy(w, &a, 16); int i = (int)vc_choice("i", 0, 127); block r = set_bit(a, i); u64 v[2]; memcpy(v, &r, 16); u64 e[2] = {w[0], w[1]}; e[i / 64] |= 1ull << (i % 64); vc_assert((v[0] == e[0]) & (v[1] == e[1]), "set_bit sets exactly bit i");
	vc_assert(getLSB(a) == (bool)(w[0] & 1), "least-significant-bit test returns bit 0"); u64 h = vc_u64("h"), l = vc_u64("l"); block m = makeBlock(h, l); memcpy(v, &m, 16); vc_assert((v[0] == l) & (v[1] == h), "makeBlock places low and high words");
	vc_assert(beq(zero_block, makeBlock(0, 0)) & beq(all_one_block, makeBlock(~0ull, ~0ull)) & beq(select_mask[0], makeBlock(0, 0)) & beq(select_mask[1], makeBlock(~0ull, ~0ull)), "block constants");
}
