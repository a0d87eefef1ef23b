#include "gossl.h"
#include "aes_spec.h"
using gossl::B; using gossl::P;
//@ all sym=0
static u64 V(const BigInt& a) { return B(a.n)->v; }
static u64 V(const Point& a) { return P(a.point)->v; }
static void mk(BigInt& a, const char* n) { gossl::setv(a.n, vc_u64(n)); }
#define LIVE int bn0 = gossl::live_bn, pt0 = gossl::live_pt, cx0 = gossl::live_ctx, gr0 = gossl::live_grp
#define GONE vc_assert((gossl::live_bn == bn0) & (gossl::live_pt == pt0) & (gossl::live_ctx == cx0) & (gossl::live_grp == gr0), "every resource is released exactly once")
VC_HARNESS(bigint_ops) {
	LIVE; BN_CTX* c = BN_CTX_new(); { BigInt a, b, m; mk(a, "a"); mk(b, "b"); mk(m, "m"); u64 x = V(a), y = V(b), z = V(m);
		{ BigInt r = a.add(b); vc_assert(V(r) == vc_uf("bn_add", x, y, 0), "add"); BigInt s = a.mul(b, c); vc_assert(V(s) == vc_uf("bn_mul", x, y, 0), "mul"); BigInt t = a.mod(m, c); vc_assert(V(t) == vc_uf("bn_mod", x, z, 0), "mod");
		BigInt u = a.add_mod(b, m, c); vc_assert(V(u) == vc_uf("bn_mod", vc_uf("bn_add", x, y, 0), z, 0), "modular add"); BigInt v = a.mul_mod(b, m, c); vc_assert(V(v) == vc_uf("bn_mod", vc_uf("bn_mul", x, y, 0), z, 0), "modular multiply");
		BigInt w = a.add(a); vc_assert(V(w) == vc_uf("bn_add", x, x, 0), "add with itself"); BigInt d = a.mul_mod(a, m, c); vc_assert(V(d) == vc_uf("bn_mod", vc_uf("bn_mul", x, x, 0), z, 0), "modular multiply with itself"); }
		vc_assert((V(a) == x) & (V(b) == y) & (V(m) == z), "operands unchanged by integer operations"); a = a.add(b); vc_assert(V(a) == vc_uf("bn_add", x, y, 0), "result assigned to an operand"); } BN_CTX_free(c); GONE;
}
VC_HARNESS(bigint_values) {
	LIVE; { BigInt a; mk(a, "a"); u64 x = V(a); BigInt b(a), c; vc_assert(V(b) == x, "copy equals its source"); c = a; vc_assert(V(c) == x, "assignment copies"); gossl::setv(a.n, vc_u64("n")); vc_assert((V(b) == x) & (V(c) == x), "copies are independent of their source"); gossl::setv(b.n, vc_u64("k")); vc_assert(V(c) == x, "copies are independent of each other"); c = c; vc_assert(V(c) == x, "self-assignment keeps the value"); a = b; b = c; vc_assert(V(b) == x, "chained assignment"); } GONE;
}
VC_HARNESS(bigint_bin) {
	LIVE; { int n = (int)vc_choice("n", 0, 8); uint8_t in[8], out[9]; vc_fill_bytes(in, 8, "in"); vc_fill_bytes(out, 9, "out"); uint8_t g[9]; memcpy(g, out, 9); if (n) vc_assume(in[0] != 0); BigInt a; mk(a, "old"); a.from_bin(in, n); vc_assert(a.size() == n, "size in bytes"); a.to_bin(out); for (int i = 0; i < n; ++i) vc_assert(out[i] == in[i], "serialising a deserialised integer gives the same bytes"); for (int i = n; i < 9; ++i) vc_assert(out[i] == g[i], "serialisation writes size() bytes");
		BigInt b; b.from_bin(out, n); vc_assert(V(a) == V(b), "deserialising returns an equal integer"); } GONE;
}
VC_HARNESS(point_ops) {
	LIVE; { Group g; vc_assert(V(g.order) == 0xfff1, "group order"); Point p(&g), q(&g); P(p.point)->v = vc_u64("p"); P(q.point)->v = vc_u64("q"); u64 x = V(p), y = V(q); BigInt m; mk(m, "m"); u64 k = V(m);
		Point a = p.add(q); vc_assert(V(a) == vc_uf("ec_add", x, y, 0), "point addition"); Point d = p.add(p); vc_assert(V(d) == vc_uf("ec_add", x, x, 0), "point doubling"); Point b = p.mul(m); vc_assert(V(b) == vc_uf("ec_mul", x, k, 0), "scalar multiplication"); Point c = p.inv(); vc_assert(V(c) == vc_uf("ec_inv", x, 0, 0), "inverse");
		Point e = g.mul_gen(m); vc_assert(V(e) == vc_uf("ec_mul", 0x6e6, k, 0), "generator multiplication"); Point f = g.get_generator(); vc_assert(V(f) == 0x6e6, "generator"); P(f.point)->v = 5; Point h = g.get_generator(); vc_assert(V(h) == 0x6e6, "generator is not modified through a returned point");
		vc_assert((p == q) == (x == y), "comparison"); vc_assert((V(p) == x) & (V(q) == y) & (V(m) == k), "operands unchanged by point operations"); vc_assert((a.group == &g) & (b.group == &g) & (c.group == &g) & (e.group == &g) & (f.group == &g), "results belong to the group");
		p = p.add(q); vc_assert(V(p) == vc_uf("ec_add", x, y, 0), "result assigned to an operand point"); BigInt r; g.get_rand_bn(r); vc_assert(V(r) < V(g.order), "random scalar below the order"); } GONE;
}
VC_HARNESS(point_values) {
	LIVE; { Group g; Point z; Point z2(z); z2 = z; Point p(&g); P(p.point)->v = vc_u64("p"); u64 x = V(p); Point q(p), r; r = p; vc_assert((V(q) == x) & (V(r) == x) & (r.group == &g) & (q.group == &g), "copy and assignment of points"); P(p.point)->v = vc_u64("n"); vc_assert((V(q) == x) & (V(r) == x), "point copies are independent of their source"); q = q; vc_assert(V(q) == x, "point self-assignment"); p = q; q = r; r = z; vc_assert(V(p) == x, "point chained assignment"); vc_assert(r.point == nullptr, "empty point assigned"); Point arr[2]; arr[1] = p; vc_assert(V(arr[1]) == x, "assignment to an empty point"); } GONE;
}
VC_HARNESS(point_bin) {
	LIVE; { gossl::PTLEN = vc_choice("big", 0, 1) ? 300 : 65; Group g; Point p(&g), q(&g), r; P(p.point)->v = vc_u64("p"); u64 x = V(p); size_t n = p.size(); vc_assert(n == (size_t)gossl::PTLEN, "encoded size"); unsigned char* buf = new unsigned char[n]; p.to_bin(buf, n); q.from_bin(&g, buf, n); vc_assert((V(q) == x) & (V(p) == x), "deserialising returns an equal point"); vc_assert(q == p, "deserialised point compares equal"); r.from_bin(&g, buf, n); vc_assert(V(r) == x, "deserialising into an empty point"); vc_assert(r.group == &g, "deserialised point has its group"); delete[] buf; } GONE;
}
VC_HARNESS(scratch) { LIVE; { Group g; u64 n = vc_choice("n", 0, 2) * 200; g.resize_scratch(n); for (u64 i = 0; i < n; i += 7) g.scratch[i] = 1; if (n) g.scratch[n - 1] = 1; g.scratch[255] = 2; g.resize_scratch(10); vc_assert(g.scratch_size >= 256, "scratch never shrinks"); g.scratch[255] = 3; } GONE; }
