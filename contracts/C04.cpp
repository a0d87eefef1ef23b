#include "plain.h"
//@ all sym=0
// one gate from an arbitrary state
static void folded(PC& c, St& s) { vc_assert((c.gid == s.gid) & (c.gates == s.gates) & (c.ands == s.ands), "a folded gate changes no index or counter"); }
static void fresh(PC& c, St& s, block r, u64 nand) { vc_assert(hi(r) == (u64)s.gid, "a gate's wire gets the next index"); vc_assert(c.gid == s.gid + 1, "indices are consecutive"); vc_assert(c.gates == s.gates + 1, "gate counter"); vc_assert(c.ands == s.ands + nand, "AND counter"); vc_assert(!c.is_public(r, PUBLIC), "a computed wire is secret"); }
static void result(PC& c, block r, bool pub, bool val) { vc_assert(c.get_value(r) == val, "the revealed value is the Boolean function of the operands"); vc_assert(c.is_public(r, PUBLIC) == pub, "public exactly when determined by public operands"); vc_assert(lo(r) == (pub ? (val ? PC::P1 : PC::P0) : (val ? PC::S1 : PC::S0)), "the wire has a valid kind"); if (pub) vc_assert(eq(r, c.public_label(val)), "public results are the public labels"); }
#define PRE PC c(false, "x"); St s = any(c); W a = wire(c, (int)vc_choice("ka", 0, 3), (i64)vc_sym("ia", 0, 1ull << 48))
#define PRE2 PRE; W b = wire(c, (int)vc_choice("kb", 0, 3), (i64)vc_sym("ib", 0, 1ull << 48)); block a0 = a.b, b0 = b.b
#define POST vc_assert(eq(a.b, a0) & eq(b.b, b0), "operand wires are unchanged"); vc_assert(c.num_and() == c.ands, "num_and reports the AND counter"); vc_assert(gfs::opens == 0, "nothing is written without export")
VC_HARNESS(and_step) { PRE2; block r = c.and_gate(a.b, b.b); bool zero = (a.pub && !a.val) || (b.pub && !b.val); result(c, r, zero || (a.pub && b.pub), a.val & b.val); if (a.pub || b.pub) { folded(c, s); if (!a.pub && !zero) vc_assert(eq(r, a0), "AND with public one is the other operand"); if (!b.pub && !zero) vc_assert(eq(r, b0), "public one AND x is x"); } else fresh(c, s, r, 1); POST; }
VC_HARNESS(xor_step) { PRE2; block r = c.xor_gate(a.b, b.b); result(c, r, a.pub && b.pub, a.val ^ b.val); if (a.pub && b.pub) folded(c, s); else if (a.pub) { if (a.val) fresh(c, s, r, 0); else { folded(c, s); vc_assert(eq(r, b0), "public zero XOR x is x"); } } else if (b.pub) { if (b.val) fresh(c, s, r, 0); else { folded(c, s); vc_assert(eq(r, a0), "x XOR public zero is x"); } } else fresh(c, s, r, 0); POST; }
VC_HARNESS(same_wire) { PRE; block a0 = a.b; block r = c.and_gate(a.b, a.b); result(c, r, a.pub, a.val); block x = c.xor_gate(a.b, a.b); result(c, x, a.pub, false); vc_assert(eq(a.b, a0), "a wire used twice is unchanged"); }
VC_HARNESS(not_step) { PRE; W b = a; block a0 = a.b, b0 = a.b; block r = c.not_gate(a.b); result(c, r, a.pub, !a.val); if (a.pub) folded(c, s); else fresh(c, s, r, 0); POST; }
VC_HARNESS(labels) { PC c(false, "x"); St s = any(c); bool v = vc_bool("v"); block p = c.public_label(v); result(c, p, true, v); folded(c, s); block q = c.private_label(v); result(c, q, false, v); vc_assert(hi(q) == (u64)s.gid, "an input gets the next index"); vc_assert((c.gid == s.gid + 1) & (c.gates == s.gates) & (c.ands == s.ands), "an input is not a gate"); }
// protocol object: feeding and revealing
VC_HARNESS(feed_reveal) {
	u64 n = vc_size("n", 0, 12, "0,1,2,3,5"); int party = (int)vc_choice("party", 0, 2); PC* c = new PC(false, "x"); CircuitExecution::circ_exec = c; PlainProt p(false, "x"); ProtocolExecution::prot_exec = &p; St s = any(*c); i64 m1 = (i64)vc_sym("n1", 0, 1ull << 40), m2 = (i64)vc_sym("n2", 0, 1ull << 40), m3 = (i64)vc_sym("n3", 0, 1ull << 40); p.n1 = m1; p.n2 = m2; p.n3 = m3; bool* v = new bool[n + 1], *o = new bool[n + 1]; vc_fill_bools(v, n, "v"); vc_fill_bools(o, n + 1, "o"); bool g = o[n]; block* w = new block[n + 1]; vc_fill_blocks(w, n + 1, "w"); block wg = w[n];
	p.feed(w, party, v, (int)n); for (u64 i = 0; i < n; ++i) { result(*c, w[i], party == PUBLIC, v[i]); if (party != PUBLIC) vc_assert(hi(w[i]) == (u64)s.gid + i, "inputs get consecutive indices"); } vc_assert(eq(w[n], wg), "feed writes only its wires"); vc_assert(c->gid == s.gid + (party == PUBLIC ? 0 : (i64)n), "one index per private input bit"); vc_assert((p.n1 == m1 + (party == ALICE ? (i64)n : 0)) & (p.n2 == m2 + (party == BOB ? (i64)n : 0)), "inputs are counted per party");
	p.reveal(o, PUBLIC, w, (int)n); for (u64 i = 0; i < n; ++i) vc_assert(o[i] == v[i], "revealing a fed value returns it"); vc_assert(o[n] == g, "reveal writes only its bits"); vc_assert(p.n3 == m3 + (i64)n, "outputs are counted"); vc_assert((c->gates == s.gates) & (c->ands == s.ands), "feeding and revealing are not gates");
}
VC_HARNESS(init) { PC c(false, "x"); vc_assert((c.gid == 0) & (c.gates == 0) & (c.ands == 0), "counters start at zero"); }
