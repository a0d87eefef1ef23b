#include "gscan.h"
#include "vc.h"
using namespace emp;
typedef uint64_t u64;
//@ all sym=0
struct G { int op, a, b, o; };     // 0 AND, 1 XOR, 2 INV
static void emit(const G& g) { if (g.op < 2) { gsc::num(2); gsc::num(1); gsc::num(g.a); gsc::num(g.b); gsc::num(g.o); if (g.op == 0) gsc::word("AND"); else gsc::word("XOR"); } else { gsc::num(1); gsc::num(1); gsc::num(g.a); gsc::num(g.o); gsc::word("INV"); } }
static void format(int ng, int nw, int n1, int n2, int n3, const G* g) { gsc::clear(); gsc::num(ng); gsc::num(nw); gsc::num(n1); gsc::num(n2); gsc::num(n3); for (int i = 0; i < ng; ++i) emit(g[i]); }
static void fashion(int ng, int nw, int ni, const int* in, int no, const int* out, const G* g) { gsc::clear(); gsc::num(ng); gsc::num(nw); gsc::num(ni); for (int i = 0; i < ni; ++i) gsc::num(in[i]); gsc::num(no); for (int i = 0; i < no; ++i) gsc::num(out[i]); for (int i = 0; i < ng; ++i) emit(g[i]); }
// parsing: any wire numbers, any mix of gate kinds
static G anygate() { G g; g.op = (int)vc_choice("op", 0, 2); g.a = (int)vc_sym("a", 0, 1 << 30); g.b = (int)vc_sym("b", 0, 1 << 30); g.o = (int)vc_sym("o", 0, 1 << 30); return g; }
static void table(const std::vector<int>& t, const G* g, int ng) { vc_assert(t.size() == (size_t)ng * 4, "one table entry per gate"); for (int i = 0; i < ng; ++i) { vc_assert(t[4 * i + 3] == g[i].op, "gate kind as in the file"); vc_assert(t[4 * i] == g[i].a, "first operand as in the file"); if (g[i].op < 2) vc_assert(t[4 * i + 1] == g[i].b, "second operand as in the file"); vc_assert(t[4 * i + 2] == g[i].o, "output wire as in the file"); } }
VC_HARNESS(parse_format) { int ng = (int)vc_size("ng", 0, 6, "0,1,2,3,4"); G g[8]; for (int i = 0; i < ng; ++i) g[i] = anygate(); format(ng, 9, 2, 3, 4, g); BristolFormat c("c"); vc_assert((c.num_gate == ng) & (c.num_wire == 9) & (c.n1 == 2) & (c.n2 == 3) & (c.n3 == 4), "header as in the file"); vc_assert(c.wires.size() == 9, "one wire buffer entry per wire"); table(c.gates, g, ng); vc_assert((gsc::opens == 1) & (gsc::closes == 1), "the file is opened and closed once"); vc_assert(gsc::file.pos == gsc::file.n, "the whole file is read"); }
VC_HARNESS(parse_fashion) {
	int ng = (int)vc_size("ng", 0, 6, "0,1,2,3"), ni = (int)vc_choice("ni", 1, 3), no = (int)vc_choice("no", 1, 2); G g[8]; for (int i = 0; i < ng; ++i) g[i] = anygate(); int in[3], out[2], si = 0, so = 0; for (int i = 0; i < ni; ++i) { in[i] = (int)vc_sym("in", 0, 1 << 20); si += in[i]; } for (int i = 0; i < no; ++i) { out[i] = (int)vc_sym("out", 0, 1 << 20); so += out[i]; }
	fashion(ng, 11, ni, in, no, out, g); BristolFashion c("c"); vc_assert((c.num_gate == ng) & (c.num_wire == 11), "Fashion header as in the file"); vc_assert((c.num_input == si) & (c.num_output == so), "input and output widths are summed"); vc_assert(c.wires.size() == 11, "one wire per Fashion wire"); table(c.gates, g, ng); vc_assert((gsc::opens == 1) & (gsc::closes == 1), "the Fashion file is opened and closed once"); vc_assert(gsc::file.pos == gsc::file.n, "the whole Fashion file is read");
}
// evaluation: every circuit of the given shape, all inputs; outputs compared with the listed gates applied in order
struct C { int ni, ng, nw, no; G g[64]; };
static void shape(C& c, int ni, int ng, int no, bool perm) { // any gates over any earlier wires; output wires in order, or permuted where the order of definition allows it
	c.ni = ni; c.ng = ng; c.nw = ni + ng; c.no = no; for (int i = 0; i < ng; ++i) { G& g = c.g[i]; g.op = (int)vc_choice("op", 0, 2); g.a = (int)vc_choice("a", 0, ni + i - 1); g.b = g.op == 2 ? 0 : (int)vc_choice("b", 0, ni + i - 1); g.o = ni + i; }
	if (perm) { int x = ni, y = ni + ng - 1; for (int i = 0; i < ng; ++i) { G& g = c.g[i]; if (g.a == x) g.a = y; else if (g.a == y) g.a = x; if (g.op < 2) { if (g.b == x) g.b = y; else if (g.b == y) g.b = x; } g.o = g.o == x ? y : g.o == y ? x : g.o; } }
}
static void big(C& c, int ni, int ng, int no, u64 seed) { c.ni = ni; c.ng = ng; c.nw = ni + ng; c.no = no; u64 r = seed; for (int i = 0; i < ng; ++i) { G& g = c.g[i]; r = r * 6364136223846793005ull + 1442695040888963407ull; g.op = (int)((r >> 33) % 3); r = r * 6364136223846793005ull + 1442695040888963407ull; int w = ni + i; int back = w < 9 ? w : 9; g.a = w - 1 - (int)((r >> 33) % back); r = r * 6364136223846793005ull + 1442695040888963407ull; g.b = g.op == 2 ? 0 : (int)((r >> 33) % w); g.o = ni + i; } }
static void spec(const C& c, const bool* in, bool* w) { for (int i = 0; i < c.ni; ++i) w[i] = in[i]; for (int i = 0; i < c.ng; ++i) { const G& g = c.g[i]; w[g.o] = g.op == 0 ? (bool)(w[g.a] & w[g.b]) : g.op == 1 ? (bool)(w[g.a] ^ w[g.b]) : !w[g.a]; } }
static void feed(block* w, bool* v, int n, const char* nm) { vc_fill_wires(w, n, nm); for (int i = 0; i < n; ++i) v[i] = vc_val(w[i]); }
static void want(const C& c, const bool* in, const block* out) { bool w[80]; spec(c, in, w); for (int i = 0; i < c.no; ++i) vc_assert(vc_val(out[i]) == w[c.nw - c.no + i], "outputs are the last wires of the described circuit"); }
static void run_format(C& c, int n1) {
	vc_setup_abs(); int n2 = c.ni - n1; format(c.ng, c.nw, n1, n2, c.no, c.g); BristolFormat f("c"); block in[16], *out = new block[c.no + 1], o2[16]; bool v[16]; out[c.no] = makeBlock(7, 7); feed(in, v, c.ni, "x"); block keep[16]; memcpy(keep, in, sizeof(block) * c.ni); f.compute(out, in, in + n1); want(c, v, out); vc_assert(memcmp(keep, in, sizeof(block) * c.ni) == 0, "inputs are unchanged"); vc_assert((_mm_extract_epi64(out[c.no], 0) == 7) & (_mm_extract_epi64(out[c.no], 1) == 7), "only the output wires are written");
	block in2[16]; bool v2[16]; feed(in2, v2, c.ni, "y"); f.compute(o2, in2, in2 + n1); want(c, v2, o2); f.compute((Bit*)o2, (const Bit*)in, (const Bit*)(in + n1)); want(c, v, o2); if (c.no <= c.ni) { f.compute(in2, in2, in2 + n1); want(c, v2, in2); }
}
static void run_fashion(C& c) {
	vc_setup_abs(); int ii[2] = {1, c.ni - 1}, oo[1] = {c.no}; fashion(c.ng, c.nw, 2, ii, 1, oo, c.g); BristolFashion f("c"); block in[16], *out = new block[c.no + 1], o2[16]; bool v[16]; out[c.no] = makeBlock(7, 7); feed(in, v, c.ni, "x"); block keep[16]; memcpy(keep, in, sizeof(block) * c.ni); f.compute(out, in); want(c, v, out); vc_assert(memcmp(keep, in, sizeof(block) * c.ni) == 0, "Fashion inputs are unchanged"); vc_assert((_mm_extract_epi64(out[c.no], 0) == 7) & (_mm_extract_epi64(out[c.no], 1) == 7), "only the Fashion output wires are written");
	block in2[16]; bool v2[16]; feed(in2, v2, c.ni, "y"); f.compute((Bit*)o2, (const Bit*)in2); want(c, v2, o2); f.compute(o2, in); want(c, v, o2); if (c.no <= c.ni) { f.compute(in2, in2); want(c, v2, in2); }
}
//@ format_all split=op
VC_HARNESS(format_all) { C c; int n1 = (int)vc_choice("n1", 0, 2); shape(c, 2, 2, 1 + (int)vc_choice("no", 0, 1), vc_choice("perm", 0, 1)); run_format(c, n1); }
//@ fashion_all split=op
VC_HARNESS(fashion_all) { C c; shape(c, 2, 2, 1 + (int)vc_choice("no", 0, 2), vc_choice("perm", 0, 1)); run_fashion(c); }
VC_HARNESS(format_big) { C c; big(c, 5, 40, 6, vc_size("seed", 1, 1000, "1,2,3|1..24")); run_format(c, 2); }
VC_HARNESS(fashion_big) { C c; big(c, 6, 40, 5, vc_size("seed", 1, 1000, "1,2,3|1..24")); run_fashion(c); }
// reading another file into the same object
VC_HARNESS(reload) { C c; int k = (int)vc_choice("k", 0, 1); C d; big(d, 4, 12, 3, 5); big(c, 3 + 2 * k, 9, 2, 6); vc_setup_abs(); block in[16], out[16]; bool v[16]; int ii[2] = {1, d.ni - 1}, oo[2] = {1, d.no - 1}; fashion(d.ng, d.nw, 2, ii, 2, oo, d.g); BristolFashion f("c"); feed(in, v, d.ni, "x"); f.compute(out, in); want(d, v, out); int i2[1] = {c.ni}, o2[1] = {c.no}; fashion(c.ng, c.nw, 1, i2, 1, o2, c.g); f.from_file("c"); vc_assert((f.num_input == c.ni) & (f.num_output == c.no), "reloading replaces the widths"); feed(in, v, c.ni, "y"); f.compute(out, in); want(c, v, out);
	format(d.ng, d.nw, 1, d.ni - 1, d.no, d.g); BristolFormat g("c"); format(c.ng, c.nw, 2, c.ni - 2, c.no, c.g); g.from_file("c"); g.compute(out, in, in + 2); want(c, v, out); }
// circuits given as an array
VC_HARNESS(array_ctor) { C c; big(c, 5, 20, 4, 9); vc_setup_abs(); int t[80]; for (int i = 0; i < c.ng; ++i) { t[4 * i] = c.g[i].a; t[4 * i + 1] = c.g[i].b; t[4 * i + 2] = c.g[i].o; t[4 * i + 3] = c.g[i].op; } BristolFormat f(c.ng, c.nw, 2, 3, c.no, t); t[3] = 1 - t[3]; t[0] = 0; block in[8], out[8]; bool v[8]; feed(in, v, 5, "x"); f.compute(out, in, in + 2); want(c, v, out); }
template<class T> static void exec_all() {
	vc_setup_abs(); block w[8]; bool v[8]; feed(w, v, 3, "x"); T t[8]; bool s[8]; for (int i = 0; i < 3; ++i) s[i] = v[i]; w[7] = makeBlock(7, 7);
	for (int i = 0; i < 2; ++i) { int op = (int)vc_choice("op", 0, 3), a = (int)vc_choice("a", 0, 2 + i), b = op == 2 ? 0 : (int)vc_choice("b", 0, 2 + i); t[4 * i] = a; t[4 * i + 1] = b; t[4 * i + 2] = 3 + i; t[4 * i + 3] = op; s[3 + i] = op == 0 ? (bool)(s[a] & s[b]) : op == 1 ? (bool)(s[a] ^ s[b]) : op == 2 ? !s[a] : (bool)(s[a] | s[b]); }
	execute_circuit(w, t, 2); for (int i = 0; i < 5; ++i) vc_assert(vc_val(w[i]) == s[i], "array-driven evaluation applies the listed gates in order"); vc_assert((_mm_extract_epi64(w[7], 0) == 7) & (_mm_extract_epi64(w[7], 1) == 7), "only listed wires are written");
}
//@ exec_short split=op
VC_HARNESS(exec_short) { exec_all<short>(); }
VC_HARNESS(exec_int) { vc_setup_abs(); int n = (int)vc_size("n", 0, 60, "0,1,40"); C c; big(c, 6, n, 1, 4); block w[80]; bool v[80], s[80]; feed(w, v, 6, "x"); int* t = new int[4 * n + 1]; for (int i = 0; i < n; ++i) { t[4 * i] = c.g[i].a; t[4 * i + 1] = c.g[i].b; t[4 * i + 2] = c.g[i].o; t[4 * i + 3] = c.g[i].op; } spec(c, v, s); execute_circuit(w, t, (size_t)n); for (int i = 0; i < c.nw; ++i) vc_assert(vc_val(w[i]) == s[i], "array-driven evaluation of longer gate lists"); }
