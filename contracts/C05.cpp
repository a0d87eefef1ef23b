#include "plain.h"
//@ all sym=0
using gfs::body; using gfs::head; using gfs::Tok;
static bool line(const Tok* t, int n, int op, i64 a, i64 b, i64 o) { // "2 1 a b o OP" / "1 1 a o INV" on one line
	if (op == 3 || op == 4) return n == 5 && (t[0].op == 0) & (t[0].v == 1) & (t[1].v == 1) & (t[2].v == a) & (t[3].v == o) & (t[4].op == op) & (t[1].op == 0) & (t[2].op == 0) & (t[3].op == 0) & (t[0].line == t[4].line);
	return n == 6 && (t[0].op == 0) & (t[0].v == 2) & (t[1].v == 1) & (t[2].v == a) & (t[3].v == b) & (t[4].v == o) & (t[5].op == op) & (t[1].op == 0) & (t[2].op == 0) & (t[3].op == 0) & (t[4].op == 0) & (t[0].line == t[5].line);
}
static PC* exporter() { PC* c = new PC(true, "out"); vc_assert((gfs::opens == 1) & (gfs::fname[0] == 'o') & (gfs::fname[1] == 'u') & (gfs::fname[2] == 't') & (gfs::fname[3] == 0), "the requested file is created"); vc_assert(body.n == 0, "no gate before the first gate"); vc_assert(body.blank >= 56, "room is left for the header"); vc_assert(body.line >= 1, "the body starts on its own line"); return c; }
// one gate from an arbitrary state: exactly one line for a gate that is not folded, none otherwise
static void one(PC& c, bool gate, int op, i64 a, i64 b, St& s) { gfs::end(body); if (!gate) { vc_assert(body.n == 0, "a folded gate writes nothing"); return; } vc_assert(line(body.t, body.n, op, a, b, s.gid) || (op != 3 && line(body.t, body.n, op, b, a, s.gid)), "a gate writes one line with its operation, operands and fresh output"); int l = body.line; vc_assert(l > body.t[0].line, "a gate's line is ended"); }
VC_HARNESS(and_line) { PC* c = exporter(); St s = any(*c); W a = wire(*c, (int)vc_choice("ka", 0, 3), (i64)vc_sym("ia", 0, 1ull << 48)), b = wire(*c, (int)vc_choice("kb", 0, 3), (i64)vc_sym("ib", 0, 1ull << 48)); block r = c->and_gate(a.b, b.b); one(*c, !a.pub && !b.pub, 1, a.idx, b.idx, s); if (!a.pub && !b.pub) vc_assert(hi(r) == (u64)s.gid, "AND output index"); }
VC_HARNESS(xor_line) {
	PC* c = exporter(); St s = any(*c); W a = wire(*c, (int)vc_choice("ka", 0, 3), (i64)vc_sym("ia", 0, 1ull << 48)), b = wire(*c, (int)vc_choice("kb", 0, 3), (i64)vc_sym("ib", 0, 1ull << 48)); block r = c->xor_gate(a.b, b.b);
	if (!a.pub && !b.pub) { one(*c, true, 2, a.idx, b.idx, s); vc_assert(hi(r) == (u64)s.gid, "XOR output index"); } else if (a.pub && b.pub) one(*c, false, 0, 0, 0, s); else { bool k = a.pub ? a.val : b.val; i64 x = a.pub ? b.idx : a.idx; one(*c, k, 3, x, x, s); if (k) vc_assert(hi(r) == (u64)s.gid, "INV output index"); }
}
VC_HARNESS(not_line) { PC* c = exporter(); St s = any(*c); W a = wire(*c, (int)vc_choice("ka", 0, 3), (i64)vc_sym("ia", 0, 1ull << 48)); block r = c->not_gate(a.b); one(*c, !a.pub, 3, a.idx, a.idx, s); if (!a.pub) vc_assert(hi(r) == (u64)s.gid, "NOT output index"); }
VC_HARNESS(label_lines) { PC* c = exporter(); St s = any(*c); c->private_label(vc_bool("v")); c->public_label(vc_bool("w")); gfs::end(body); vc_assert(body.n == 0, "inputs and constants write no gate"); }
// the exported text, read back as a circuit over wires 0.., and evaluated on the fed inputs
struct Ev { bool v[200]; int n; int gates; };
static void eval(Ev& e, int ninputs, const bool* in) {
	e.n = ninputs; e.gates = 0; for (int i = 0; i < ninputs; ++i) e.v[i] = in[i]; int k = 0;
	while (k < body.n) { const Tok* t = body.t + k; vc_assert((t[0].op == 0) & ((t[0].v == 1) | (t[0].v == 2)) & (t[1].op == 0) & (t[1].v == 1), "every gate has one or two inputs and one output"); int na = (int)t[0].v; int op = t[3 + na].op; i64 x = t[2].v, y = t[1 + na].v, o = t[2 + na].v;
		vc_assert((x >= 0) & (x < e.n) & (y >= 0) & (y < e.n), "every operand wire is an input or the output of an earlier gate"); vc_assert(o == e.n, "gate outputs are fresh consecutive wires"); vc_assert((na == 2) ? (op == 1 || op == 2) : (op == 3 || op == 4), "operation word matches the number of inputs"); e.v[e.n] = op == 1 ? (bool)(e.v[x] & e.v[y]) : op == 2 ? (bool)(e.v[x] ^ e.v[y]) : !e.v[x]; ++e.n; ++e.gates; k += 4 + na; }
}
static void check(const bool* in, int n1, int n2, const bool* out, int n3) {
	vc_assert(gfs::closed >= 1, "the file is closed"); vc_assert((gfs::hopens == 1) & (gfs::hclosed >= 1) & (gfs::hname[0] == 'o') & (gfs::hname[1] == 'u') & (gfs::hname[2] == 't') & (gfs::hname[3] == 0), "the header goes to the same file"); Ev* e = new Ev; eval(*e, n1 + n2, in);
	vc_assert((head.n == 5) & (head.blank == 0), "the header has five numbers at the start of the file"); vc_assert(head.t[0].v == e->gates, "header gate count"); vc_assert(head.t[1].v == e->n, "header wire count"); vc_assert(head.t[2].v == n1, "header input count of the first party"); vc_assert(head.t[3].v == n2, "header input count of the second party"); vc_assert(head.t[4].v == n3, "header output count"); vc_assert((head.t[1].line == 0) & (head.t[2].line == 1), "header lines");
	vc_assert(e->n >= n3, "the outputs are wires"); for (int i = 0; i < n3; ++i) vc_assert(e->v[e->n - n3 + i] == out[i], "the last wires of the file carry the revealed values in reveal order");
}
static block gate(int op, block a, block b) { return op == 0 ? CircuitExecution::circ_exec->and_gate(a, b) : op == 1 ? CircuitExecution::circ_exec->xor_gate(a, b) : CircuitExecution::circ_exec->not_gate(a); }
// all programs of two gates over two inputs of one party, one of the other and the constants, revealing any wires
//@ program split=op0,op1
VC_HARNESS(program) {
	int order = (int)vc_choice("order", 0, 1); setup_plain_prot(true, "out"); block w[7]; bool in[3]; vc_fill_bools(in, 3, "in"); bool k[2] = {false, true}, out[4]; ProtocolExecution* p = ProtocolExecution::prot_exec;
	if (order == 0) { p->feed(w, ALICE, in, 2); p->feed(w + 2, BOB, in + 2, 1); } else { p->feed(w, ALICE, in, 1); p->feed(w + 1, BOB, in + 1, 1); p->feed(w + 2, ALICE, in + 2, 1); } p->feed(w + 3, PUBLIC, k, 2);
	int o0 = (int)vc_choice("op0", 0, 2), o1 = (int)vc_choice("op1", 0, 2); int a0 = (int)vc_choice("a0", 0, 1) * 3, b0 = o0 == 2 ? 0 : 2 + (int)vc_choice("b0", 0, 2); w[5] = gate(o0, w[a0], w[b0]); int a1 = (int)vc_choice("a1", 1, 2) * 2 + 1, b1 = o1 == 2 ? 0 : (int)vc_choice("b1", 0, 2) * 2; if (a1 == 3) a1 = 5; else a1 = 1; w[6] = gate(o1, w[a1], w[b1]);
	int r0 = 4 + (int)vc_choice("r0", 0, 2), r1 = (int)vc_choice("r1", 0, 3) * 2; p->reveal(out, PUBLIC, w + r0, 1); p->reveal(out + 1, ALICE, w + r1, 1); p->reveal(out + 2, PUBLIC, w + 5, 2); finalize_plain_prot(); check(in, order == 0 ? 2 : 2, 1, out, 4);
}
VC_HARNESS(program_ints) { setup_plain_prot(true, "out"); u64 n = vc_size("n", 1, 8, "1,2,3,4"); bool in[16], *out = new bool[3 * n + 1]; u64 x = vc_u64("x"), y = vc_u64("y"); { Integer a((int)n, (int64_t)x, ALICE), b((int)n, (int64_t)y, BOB); Integer c = a * b + Integer((int)n, 3, PUBLIC); Bit g = a >= b; for (u64 i = 0; i < n; ++i) { in[i] = (x >> i) & 1; in[n + i] = (y >> i) & 1; } std::vector<Bit> v; for (u64 i = 0; i < n; ++i) out[i] = c[(int)i].reveal(); out[n] = g.reveal(); } finalize_plain_prot(); check(in, (int)n, (int)n, out, (int)n + 1); }
// finalisation from an arbitrary state: any counters, any revealed wires
VC_HARNESS(finalise) {
	u64 n = vc_size("n", 0, 8, "0,1,2,3,4"); setup_plain_prot(true, "out"); PC* c = (PC*)CircuitExecution::circ_exec; PlainProt* p = (PlainProt*)ProtocolExecution::prot_exec; St s = any(*c); i64 m1 = (i64)vc_sym("n1", 0, 1ull << 40), m2 = (i64)vc_sym("n2", 0, 1ull << 40); p->n1 = m1; p->n2 = m2; vc_assume(s.gid >= 1); W* w = new W[n + 1]; bool o; for (u64 i = 0; i < n; ++i) { w[i] = wire(*c, (int)vc_choice("k", 0, 2), (i64)vc_sym("i", 0, 1ull << 48)); vc_assume(w[i].pub | (w[i].idx < s.gid)); p->reveal(&o, PUBLIC, &w[i].b, 1); vc_assert(o == w[i].val, "revealed value"); }
	gfs::end(body); vc_assert(body.n == 0, "revealing writes nothing before finalisation"); finalize_plain_prot(); i64 g = s.gid; int k = 0, cnt = 0; i64 z = -1, first = -1;
	// every wire of the tail is interpreted relative to the wires before it: constants known from x^x, copies as XOR with a zero
	struct V { bool known, val; i64 src; bool inv; }; V* v = new V[2 * n + 8];
	while (k < body.n) { const Tok* t = body.t + k; int na = (int)t[0].v; vc_assert((na == 1) | (na == 2), "tail gate shape"); vc_assert(t[2 + na].v == g + cnt, "tail gates get fresh consecutive wires"); int op = t[3 + na].op; vc_assert((na == 1) | (op == 2), "tail gates are XOR and INV"); V r; V a[2]; for (int q = 0; q < na; ++q) { i64 x = t[2 + q].v; bool tail = false; for (int j = 0; j < cnt; ++j) if (x == g + j) { a[q] = v[j]; tail = true; } if (!tail) { vc_assert((x >= 0) & (x < g), "tail operands exist"); a[q].known = false; a[q].val = false; a[q].src = x; a[q].inv = false; } }
		if (na == 1) { r = a[0]; if (r.known) r.val = !r.val; else r.inv = !r.inv; } else if (op == 2) { if (a[0].known && !a[0].val) r = a[1]; else if (a[1].known && !a[1].val) r = a[0]; else { vc_assert((!a[0].known) & (!a[1].known) & (a[0].src == a[1].src) & (a[0].inv == a[1].inv), "tail XOR is a copy or a zero"); r.known = true; r.val = false; r.src = -1; r.inv = false; } } else r = a[0]; v[cnt++] = r; k += 4 + na; }
	vc_assert(cnt >= (int)n, "one output gate per revealed bit"); for (u64 i = 0; i < n; ++i) { V& r = v[cnt - n + i]; vc_assert(r.known == w[i].pub, "output wire kind"); if (w[i].pub) vc_assert(r.val == w[i].val, "a revealed constant is written as that constant"); else vc_assert((r.src == w[i].idx) & !r.inv, "an output wire copies the revealed wire"); }
	vc_assert(head.n == 5, "header size"); vc_assert(head.t[0].v == (i64)s.gates + cnt, "header counts the gates of the body"); vc_assert(head.t[1].v == g + cnt, "header counts the wires of the body"); vc_assert((head.t[2].v == m1) & (head.t[3].v == m2) & (head.t[4].v == (i64)n), "header input and output counts"); (void)z; (void)first;
}
