// Functionally reduced and-inverter graph (SAT sweeping): nodes that agree on all simulated patterns are proved equal by MiniSat
// (bounded conflicts) and merged while the graph is built; a failed proof with a model refines the patterns.
#include <minisat/core/Solver.h>
#include <stdint.h>
#include <string.h>
#include <vector>
#include <unordered_map>
#include <algorithm>
using namespace Minisat; using std::vector;
static const int W0 = 32, WX = 32;                       // 2048 random patterns + 2048 counterexample slots
typedef uint64_t u64;
struct Fraig {
	vector<int> f0, f1; vector<u64> sig; vector<char> enc; std::unordered_map<u64, int> h; std::unordered_map<u64, vector<int>> cls;
	Solver* S; vector<Var> sv; int budget, wx = 0, cexn = 0; vector<vector<char>> pend; u64 proved = 0, refuted = 0, unk = 0, calls = 0; bool off = false; u64 rs = 88172645463325252ull;
	vector<char> model;
	int W() const { return W0 + WX; }
	Fraig() : budget(300) { S = new Solver(); node(-1, -1); }
	~Fraig() { delete S; }
	u64 rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
	int node(int a, int b) { int i = f0.size(); f0.push_back(a); f1.push_back(b); sig.resize((size_t)(i + 1) * W(), 0); enc.push_back(0); sv.push_back(-1); return i; }
	u64* sg(int n) { return &sig[(size_t)n * W()]; }
	void compute(int n) { u64* o = sg(n); int a = f0[n], b = f1[n]; u64 *p = sg(a >> 1), *q = sg(b >> 1); u64 ma = (a & 1) ? ~0ull : 0, mb = (b & 1) ? ~0ull : 0; for (int w = 0; w < W(); ++w) o[w] = (p[w] ^ ma) & (q[w] ^ mb); }
	bool inv(int n) { return sg(n)[0] & 1; }
	u64 key(int n) { u64* s = sg(n); u64 m = (s[0] & 1) ? ~0ull : 0, k = 1469598103934665603ull; for (int w = 0; w < W(); ++w) { k ^= s[w] ^ m; k *= 1099511628211ull; k ^= k >> 29; } return k; }
	bool same(int x, int y) { u64 *p = sg(x), *q = sg(y), m = ((p[0] ^ q[0]) & 1) ? ~0ull : 0; for (int w = 0; w < W(); ++w) if ((p[w] ^ m) != q[w]) return false; return true; }
	void encode(int r) {
		vector<int> st(1, r);
		while (!st.empty()) { int n = st.back();
			if (enc[n]) { st.pop_back(); continue; }
			if (n == 0) { sv[0] = S->newVar(); S->addClause(mkLit(sv[0], true)); enc[0] = 1; st.pop_back(); continue; }
			if (f0[n] < 0) { sv[n] = S->newVar(); enc[n] = 1; st.pop_back(); continue; }
			int a = f0[n] >> 1, b = f1[n] >> 1; bool go = true; if (!enc[a]) { st.push_back(a); go = false; } if (!enc[b]) { st.push_back(b); go = false; } if (!go) continue;
			sv[n] = S->newVar(); Lit N = mkLit(sv[n]), A = mkLit(sv[a], f0[n] & 1), B = mkLit(sv[b], f1[n] & 1);
			S->addClause(~N, A); S->addClause(~N, B); S->addClause(N, ~A, ~B); enc[n] = 1; st.pop_back(); }
	}
	Lit lit(int l) { encode(l >> 1); return mkLit(sv[l >> 1], l & 1); }
	lbool query(Lit p, Lit q, int bud) { vec<Lit> as; as.push(p); if (q != lit_Undef) as.push(q); calls++; S->setConfBudget(bud); return S->solveLimited(as); }
	void cex() { // record the current model as a pattern
		vector<char> v(f0.size(), 2); for (size_t n = 0; n < f0.size(); ++n) if (f0[n] < 0 && enc[n]) v[n] = S->modelValue(sv[n]) == l_True; pend.push_back(v); if (pend.size() >= 24) resim(); }
	void resim() {
		int w = W0 + (wx++ % WX); u64 keep = rnd();
		for (size_t n = 1; n < f0.size(); ++n) {
			if (f0[n] < 0) { u64 x = rnd() & rnd(); if (keep & 1) x = ~x; for (size_t k = 0; k < 64; ++k) { vector<char>& p = pend[k % pend.size()]; if (n < p.size() && p[n] != 2) { if (k < pend.size() || (rnd() % 16)) { x = (x & ~(1ull << k)) | ((u64)p[n] << k); } } } sg(n)[w] = x; }
			else { int a = f0[n], b = f1[n]; sg(n)[w] = (sg(a >> 1)[w] ^ ((a & 1) ? ~0ull : 0)) & (sg(b >> 1)[w] ^ ((b & 1) ? ~0ull : 0)); }
		}
		pend.clear(); cls.clear(); for (size_t n = 0; n < f0.size(); ++n) if (n == 0 || f0[n] >= 0 || true) cls[key(n)].push_back(n);
	}
	int var(const u64* pat) { int n = node(-1, -1); memcpy(sg(n), pat, W0 * 8); for (int w = W0; w < W(); ++w) sg(n)[w] = rnd(); cls[key(n)].push_back(n); return 2 * n; }
	int mkand(int a, int b) {
		if (a == 0 || b == 0 || a == (b ^ 1)) return 0; if (a == 1) return b; if (b == 1 || a == b) return a; if (a > b) std::swap(a, b);
		u64 hk = ((u64)a << 32) | (unsigned)b; auto it = h.find(hk); if (it != h.end()) return it->second;
		int n = node(a, b); compute(n); int res = 2 * n;
		if (!off) {
			bool again = true; int rounds = 0;
			while (again && rounds++ < 6) { again = false;
				vector<int> cand; { auto c = cls.find(key(n)); if (c != cls.end()) cand = c->second; }
				if (cls.empty()) {}
				{ bool z = true, o = true; u64* s = sg(n); for (int w = 0; w < W(); ++w) { if (s[w]) z = false; if (~s[w]) o = false; } if (z || o) cand.insert(cand.begin(), 0); }
				int tried = 0; bool done = false;
				for (int q : cand) { if (q == n || tried++ > 8) continue; if (q && !same(q, n)) continue;
					bool iv = q ? (inv(q) != inv(n)) : (sg(n)[0] & 1); int ql = 2 * q ^ (int)iv; Lit x = lit(2 * n), y = lit(ql);
					lbool r1 = query(x, ~y, budget); if (r1 == l_True) { refuted++; cexn++; size_t before = pend.size(); cex(); if (pend.size() < before + 1) { again = true; break; } continue; }
					if (r1 == l_Undef) { unk++; continue; }
					lbool r2 = query(~x, y, budget); if (r2 == l_True) { refuted++; cexn++; size_t before = pend.size(); cex(); if (pend.size() < before + 1) { again = true; break; } continue; }
					if (r2 == l_Undef) { unk++; continue; }
					S->addClause(~x, y); S->addClause(x, ~y); proved++; res = ql; done = true; break; }
				if (done) break;
			}
			if (res == 2 * n) { auto& v = cls[key(n)]; if (std::find(v.begin(), v.end(), n) == v.end()) v.push_back(n); }
		}
		h[hk] = res; return res;
	}
	// 1 valid, 0 refuted (model available), 2 unknown
	int valid(int l, int bud) { if (l == 1) return 1; Lit x = lit(l); lbool r = query(~x, lit_Undef, bud); if (r == l_False) { S->addClause(x); return 1; } if (r == l_Undef) return 2;
		model.assign(f0.size(), 0); for (size_t n = 0; n < f0.size(); ++n) if (f0[n] < 0 && enc[n]) model[n] = S->modelValue(sv[n]) == l_True; return 0; }
};
extern "C" {
void* fr_new() { return new Fraig(); }
void fr_free(void* p) { delete (Fraig*)p; }
int fr_var(void* p, const u64* pat) { return ((Fraig*)p)->var(pat); }
int fr_and(void* p, int a, int b) { return ((Fraig*)p)->mkand(a, b); }
int fr_valid(void* p, int l, int bud) { return ((Fraig*)p)->valid(l, bud); }
int fr_model(void* p, int l) { Fraig* f = (Fraig*)p; return (size_t)(l >> 1) < f->model.size() ? f->model[l >> 1] : 0; }
void fr_budget(void* p, int b) { ((Fraig*)p)->budget = b; }
void fr_stats(void* p, u64* o) { Fraig* f = (Fraig*)p; o[0] = f->f0.size(); o[1] = f->proved; o[2] = f->refuted; o[3] = f->unk; o[4] = f->calls; }
}
