#include "aes_spec.h"
//@ all sym=0
static inline block sg(block x) { u64 w[2]; memcpy(w, &x, 16); return makeBlock(w[0] ^ w[1], w[1]); }
struct Pi { block rk[11]; Pi(block k) { spec_schedule(k, rk); } block operator()(block x) const { return spec_cipher(rk, x); } };
static inline block s_crh(const Pi& p, block x) { return p(x) ^ x; }
static inline block s_ccrh(const Pi& p, block x) { return p(sg(x)) ^ sg(x); }
static inline block s_tccrh(const Pi& p, block x, u64 i) { block y = p(x); return p(y ^ makeBlock(0, i)) ^ y; }
VC_HARNESS(sigma_def) {
	block a = vc_block("a"), b = vc_block("b"); vc_assert(beq(sigma(a), sg(a)), "sigma(xL||xR) = (xL^xR)||xL"); vc_assert(beq(sigma(a ^ b), sigma(a) ^ sigma(b)), "sigma is linear");
	u64 w[2]; memcpy(w, &a, 16); vc_assert(beq(sigma(makeBlock(w[0], w[0] ^ w[1])), a), "sigma is onto"); block c = makeBlock(w[0] ^ w[1], w[1]); vc_assert(beq(sigma(c) ^ c, makeBlock(w[1], w[0])), "sigma XOR identity is onto");
	vc_assume(!beq(a, b)); vc_assert(!beq(sigma(a), sigma(b)), "sigma is injective"); vc_assert(!beq(sigma(a) ^ a, sigma(b) ^ b), "sigma XOR identity is injective");
}
VC_HARNESS(single) {
	block k = vc_block("k"), x = vc_block("x"); u64 i = vc_u64("i"); Pi p(k); CRH a(k); CCRH b(k); TCCRH c(k);
	vc_assert(beq(a.H(x), s_crh(p, x)), "CRH single"); vc_assert(beq(b.H(x), s_ccrh(p, x)), "CCRH single"); vc_assert(beq(c.H(x, i), s_tccrh(p, x, i)), "TCCRH single");
	CRH a0; CCRH b0; TCCRH c0; Pi z(makeBlock(0, 0)); vc_assert(beq(a0.H(x), s_crh(z, x)), "CRH default key"); vc_assert(beq(b0.H(x), s_ccrh(z, x)), "CCRH default key"); vc_assert(beq(c0.H(x, i), s_tccrh(z, x, i)), "TCCRH default key");
}
template<int N> static void fixedn() {
	block k = vc_block("k"); Pi p(k); CRH a(k); CCRH b(k); TCCRH c(k); u64 id = vc_sym("id", 0, 1ull << 62); bool inpl = vc_choice("inplace", 0, 1);
	block in[N], x[N]; vc_fill_blocks(in, N, "in"); memcpy(x, in, sizeof in); block o1[N + 1], o2[N + 1], o3[N + 1]; vc_fill_blocks(o1, N + 1, "o"); memcpy(o2, o1, sizeof o1); memcpy(o3, o1, sizeof o1); block g = o1[N];
	if (inpl) { memcpy(o1, in, sizeof in); memcpy(o2, in, sizeof in); memcpy(o3, in, sizeof in); a.H<N>(o1, o1); b.H<N>(o2, o2); c.H<N>(o3, o3, id); } else { a.H<N>(o1, in); b.H<N>(o2, in); c.H<N>(o3, in, id); }
	for (int j = 0; j < N; ++j) { vc_assert(beq(o1[j], s_crh(p, x[j])), "CRH fixed-size form"); vc_assert(beq(o2[j], s_ccrh(p, x[j])), "CCRH fixed-size form"); vc_assert(beq(o3[j], s_tccrh(p, x[j], id + j)), "TCCRH fixed-size form"); vc_assert(beq(in[j], x[j]), "inputs unchanged (fixed-size form)"); }
	vc_assert(beq(o1[N], g) & beq(o2[N], g) & beq(o3[N], g), "fixed-size forms write only their outputs");
}
VC_HARNESS(fixed_1) { fixedn<1>(); }
VC_HARNESS(fixed_3) { fixedn<3>(); }
VC_HARNESS(fixed_8) { fixedn<8>(); }
VC_HARNESS(fixed_11) { fixedn<11>(); }
template<int T> static void arr() {
	u64 n = vc_size("n", 0, 1 << 20, "0,1,7,8,9,16,19|0..34"); block k = vc_block("k"); Pi p(k); u64 id = vc_sym("id", 0, 1ull << 62); bool inpl = vc_choice("inplace", 0, 1), scr = vc_choice("scratch", 0, 1);
	block* in = new block[n + 1]; vc_fill_blocks(in, n + 1, "in"); block* x = new block[n + 1]; memcpy(x, in, 16 * (n + 1)); block* o = inpl ? in : new block[n + 1]; if (!inpl) vc_fill_blocks(o, n + 1, "o"); block g = o[n]; block* s = scr ? new block[n + 1] : nullptr; block sl; if (scr) { vc_fill_blocks(s, n + 1, "s"); sl = s[n]; }
	if (T == 0) { CRH h(k); h.Hn(o, in, (int)n, s); } else if (T == 1) { CCRH h(k); h.Hn(o, in, (int)n, s); } else { TCCRH h(k); h.Hn(o, in, id, (int)n, s); }
	VC_FORALL(j, n) { if (T == 0) vc_assert(beq(o[j], s_crh(p, x[j])), "CRH array form"); else if (T == 1) vc_assert(beq(o[j], s_ccrh(p, x[j])), "CCRH array form"); else vc_assert(beq(o[j], s_tccrh(p, x[j], id + j)), "TCCRH array form with consecutive tweaks"); }
	if (!inpl) VC_FORALL(j, n + 1) vc_assert(beq(in[j], x[j]), "inputs unchanged (array form)");
	vc_assert(beq(o[n], g), "array form writes only its outputs"); if (scr) vc_assert(beq(s[n], sl), "array form uses only n blocks of scratch");
}
VC_HARNESS(array_crh) { arr<0>(); }
VC_HARNESS(array_ccrh) { arr<1>(); }
VC_HARNESS(array_tccrh) { arr<2>(); }
