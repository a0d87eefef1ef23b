#include "gc.h"
//@ all sym=0
typedef PrivacyFreeGen<Chan> G; typedef PrivacyFreeEva<Chan> V;
static void consts(G& g, V& e) {
	vc_assert(lo(g.delta), "offset has its lowest bit set");
	for (int b = 0; b < 2; ++b) { vc_assert(beq(e.public_label(b), mk(g.public_label(b), b, g.delta)), "public constants carry their value"); vc_assert(lo(e.public_label(b)) == (b == 1), "lowest bit of a constant's label is its value"); }
}
VC_HARNESS(init) { Chan c; G g(&c); V e(&c); vc_assert(c.r == c.w, "both parties in step after setup"); consts(g, e); vc_assert((g.num_and() == 0) & (e.num_and() == 0), "no AND gates counted initially");
	block x = vc_block("x"), y = x, z = x; g.prp.permute_block(&y, 1); e.prp.permute_block(&z, 1); vc_assert(beq(y, z), "both parties use the same permutation");
	block d = vc_block("d"); g.set_delta(d); e.set_delta(); vc_assert(c.r == c.w, "both parties in step after a new offset"); vc_assert(beq(g.delta, lsb(d, 1)), "chosen offset with its lowest bit set"); consts(g, e); }
static void arbitrary(G& g, V& e) {
	g.delta = lsb(vc_block("delta"), 1); g.gid = e.gid = (int64_t)vc_sym("gid", 0, 1ull << 62); g.constant[0] = lsb(vc_block("c0"), 0); e.constant[0] = g.constant[0]; e.constant[1] = lsb(vc_block("c1"), 1); g.constant[1] = e.constant[1] ^ g.delta;
	block k = vc_block("k"); g.prp.aes_set_key(k); e.prp.aes_set_key(k);
}
static void same(Chan& c, G& g, V& e, block delta) {
	vc_assert(c.r == c.w, "both parties in step after the gate"); vc_assert(beq(g.delta, delta), "offset unchanged"); vc_assert(g.gid == e.gid, "gate indices stay equal");
	for (int r = 0; r < 11; ++r) vc_assert(beq(g.prp.aes.rd_key[r], e.prp.aes.rd_key[r]), "permutation keys stay equal");
	for (int b = 0; b < 2; ++b) vc_assert(beq(e.constant[b], mk(g.constant[b], b, delta)), "public constants unchanged");
}
static inline block sg(block x) { u64 w[2]; memcpy(w, &x, 16); return makeBlock(w[0] ^ w[1], w[1]); }
VC_HARNESS(and_gate) {
	Chan c; G g(&c); V e(&c); arbitrary(g, e); block d = g.delta; u64 n = g.num_and(); bool va = vc_choice("va", 0, 1), vb = vc_choice("vb", 0, 1);
	block a = lsb(vc_block("a"), 0), b = lsb(vc_block("b"), 0), a0 = a, b0 = b, ea = mk(a, va, d), eb = mk(b, vb, d); int w0 = c.w;
	block wg = g.and_gate(a, b), we = e.and_gate(ea, eb);
	vc_assert(beq(we, mk(wg, va & vb, d)), "AND: evaluator holds the label of the true value"); vc_assert(lo(we) == (va & vb), "lowest bit of the label is the wire value"); vc_assert(!lo(wg), "zero-label has lowest bit 0");
	vc_assert((g.num_and() == n + 1) & (e.num_and() == n + 1), "each AND gate counted once on both sides"); same(c, g, e, d);
	// the hash is tweaked by twice the gate index
	block t = makeBlock(2 * n, 0), m = sg(a0) ^ t, h = spec_cipher(g.prp.aes.rd_key, m) ^ m, m1 = sg(a0 ^ d) ^ t, h1 = spec_cipher(g.prp.aes.rd_key, m1) ^ m1;
	vc_assert(beq(wg, lsb(h, 0)), "gate hashed under its own tweak"); vc_assert(beq(c.q[w0], lsb(h, 0) ^ lsb(h1, 1) ^ b0), "garbled row under the same tweak"); vc_assert(c.w == w0 + 1, "one row per AND gate");
}
VC_HARNESS(free_gates) {
	Chan c; G g(&c); V e(&c); arbitrary(g, e); block d = g.delta; u64 n = g.num_and(); int w = c.w; bool va = vc_choice("va", 0, 1), vb = vc_choice("vb", 0, 1);
	block a = lsb(vc_block("a"), 0), b = lsb(vc_block("b"), 0), ea = mk(a, va, d), eb = mk(b, vb, d); block x = g.xor_gate(a, b), ex = e.xor_gate(ea, eb), y = g.not_gate(a), ey = e.not_gate(ea);
	vc_assert(beq(ex, mk(x, va ^ vb, d)), "XOR: evaluator holds the label of the true value"); vc_assert(beq(ey, mk(y, !va, d)), "NOT: evaluator holds the label of the true value");
	vc_assert((lo(ex) == (va ^ vb)) & (lo(ey) == !va), "lowest bit of a free gate's label is its value");
	vc_assert((g.num_and() == n) & (e.num_and() == n) & (c.w == w), "free gates are neither counted nor sent"); same(c, g, e, d);
}
