#include "gc.h"
//@ all sym=0
//@ and_gate split=used,pa,pb
//@ and_same_wire split=used,pa
typedef HalfGateGen<Chan> G; typedef HalfGateEva<Chan> V;
// Relational invariant of the two parties: same hash object, same constants up to the offset, offset odd.
static void setup(G& g, V& e) {
	vc_assert(lo(g.delta), "offset has its lowest bit set"); vc_assert(beq(g.mitccrh.start_point, e.mitccrh.start_point), "both parties hash from the same start point");
	vc_assert((g.mitccrh.gid == 0) & (e.mitccrh.gid == 0) & (g.mitccrh.key_used == 8) & (e.mitccrh.key_used == 8), "both parties start with no keys used");
	vc_assert((g.num_and() == 0) & (e.num_and() == 0), "no AND gates counted initially");
	for (int b = 0; b < 2; ++b) vc_assert(beq(e.public_label(b), mk(g.public_label(b), b, g.delta)), "public constants carry their value");
}
VC_HARNESS(init) { Chan c; G g(&c); V e(&c); vc_assert(c.r == c.w, "both parties in step after setup"); setup(g, e);
	block d = vc_block("d"); g.set_delta(d); e.set_delta(); vc_assert(c.r == c.w, "both parties in step after a new offset"); vc_assert(beq(g.delta, lsb(d, 1)), "chosen offset with its lowest bit set"); setup(g, e); }
// arbitrary reachable state: any start point, offset, constants, gate index and number of keys used in the current batch
static void arbitrary(Chan& c, G& g, V& e) {
	g.delta = lsb(vc_block("delta"), 1); block S = vc_block("S"); u64 gid; int used = (int)vc_choice("used", 0, 4) * 2;
	g.constant[0] = vc_block("c0"); block c1 = vc_block("c1"); e.constant[0] = g.constant[0]; e.constant[1] = c1; g.constant[1] = c1 ^ g.delta;
	if (used == 8 && vc_choice("start", 0, 1)) gid = 0; else gid = 2 * vc_sym("gid", 4, 1ull << 61);
	g.mitccrh.setS(S); e.mitccrh.setS(S); g.mitccrh.gid = e.mitccrh.gid = gid; g.mitccrh.key_used = e.mitccrh.key_used = used;
	for (int i = used; i < 8; ++i) { spec_schedule(S ^ makeBlock(gid - 8 + i, 0), g.mitccrh.scheduled_key[i].rd_key); g.mitccrh.scheduled_key[i].rounds = 10; e.mitccrh.scheduled_key[i] = g.mitccrh.scheduled_key[i]; }
}
static void same(Chan& c, G& g, V& e, block delta, block S) {
	vc_assert(c.r == c.w, "both parties in step after the gate"); vc_assert(beq(g.delta, delta), "offset unchanged"); vc_assert(g.mitccrh.gid == e.mitccrh.gid, "hash positions stay equal"); vc_assert(g.mitccrh.key_used == e.mitccrh.key_used, "hash positions stay equal (keys used)");
	vc_assert(beq(g.mitccrh.start_point, S) & beq(e.mitccrh.start_point, S), "start point unchanged");
	for (int i = g.mitccrh.key_used; i < 8; ++i) for (int r = 0; r < 11; ++r) vc_assert(beq(g.mitccrh.scheduled_key[i].rd_key[r], e.mitccrh.scheduled_key[i].rd_key[r]), "pending keys stay equal");
	for (int b = 0; b < 2; ++b) vc_assert(beq(e.constant[b], mk(g.constant[b], b, delta)), "public constants unchanged");
}
VC_HARNESS(and_gate) {
	Chan c; G g(&c); V e(&c); arbitrary(c, g, e); block d = g.delta, S = g.mitccrh.start_point; u64 n = g.num_and();
	bool pa = vc_choice("pa", 0, 1), pb = vc_choice("pb", 0, 1), va = vc_choice("va", 0, 1), vb = vc_choice("vb", 0, 1);
	block a = lsb(vc_block("a"), pa), b = lsb(vc_block("b"), pb), a0 = a, b0 = b, ea = mk(a, va, d), eb = mk(b, vb, d), ea0 = ea, eb0 = eb;
	block wg = g.and_gate(a, b), we = e.and_gate(ea, eb);
	vc_assert(beq(we, mk(wg, va & vb, d)), "AND: evaluator holds the label of the true value");
	vc_assert(beq(a, a0) & beq(b, b0) & beq(ea, ea0) & beq(eb, eb0), "operand labels unchanged");
	vc_assert((g.num_and() == n + 1) & (e.num_and() == n + 1), "each AND gate counted once on both sides"); same(c, g, e, d, S);
}
VC_HARNESS(and_same_wire) { Chan c; G g(&c); V e(&c); arbitrary(c, g, e); block d = g.delta, S = g.mitccrh.start_point; bool pa = vc_choice("pa", 0, 1), va = vc_choice("va", 0, 1); block a = lsb(vc_block("a"), pa), ea = mk(a, va, d);
	block wg = g.and_gate(a, a), we = e.and_gate(ea, ea); vc_assert(beq(we, mk(wg, va, d)), "AND of a wire with itself"); same(c, g, e, d, S); }
VC_HARNESS(free_gates) {
	Chan c; G g(&c); V e(&c); arbitrary(c, g, e); block d = g.delta, S = g.mitccrh.start_point; u64 n = g.num_and(); int w = c.w; bool va = vc_choice("va", 0, 1), vb = vc_choice("vb", 0, 1);
	block a = vc_block("a"), b = vc_block("b"), ea = mk(a, va, d), eb = mk(b, vb, d);
	vc_assert(beq(e.xor_gate(ea, eb), mk(g.xor_gate(a, b), va ^ vb, d)), "XOR: evaluator holds the label of the true value");
	vc_assert(beq(e.not_gate(ea), mk(g.not_gate(a), !va, d)), "NOT: evaluator holds the label of the true value");
	bool p = vc_choice("p", 0, 1); vc_assert(beq(e.public_label(p), mk(g.public_label(p), p, d)), "public constant carries its value");
	vc_assert((g.num_and() == n) & (e.num_and() == n) & (c.w == w), "free gates are neither counted nor sent"); same(c, g, e, d, S);
}
