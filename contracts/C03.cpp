#include "aes_spec.h"
//@ all sym=0
// ghost: the key with index j of an object with start point S
static inline block kj(block S, u64 j) { return S ^ makeBlock(j, 0); }
static inline block sg(block x) { u64 w[2]; memcpy(w, &x, 16); return makeBlock(w[0] ^ w[1], w[1]); }      // the linear orthomorphism: (hi ^ lo) || hi
template<int B> struct Ghost { block S; u64 next; };      // next: index of the key the next call starts with
// Object invariant: with key_used == B no key is pending; otherwise keys key_used..B-1 are scheduled for indices gid-B+key_used .. gid-1.
template<int B> static void arbitrary(MITCCRH<B>& h, int used, Ghost<B>& g) {
	g.S = vc_block("S"); u64 gid = used == B && vc_choice("start", 0, 1) ? 0 : vc_sym("gid", B, 1ull << 62); h.setS(g.S); h.gid = gid; h.key_used = used; vc_havoc(h.keys, sizeof h.keys);
	for (int i = 0; i < B; ++i) { vc_havoc(&h.scheduled_key[i], sizeof(AES_KEY)); if (i >= used) { spec_schedule(kj(g.S, gid - B + i), h.scheduled_key[i].rd_key); h.scheduled_key[i].rounds = 10; } }
	g.next = gid - (B - used);
}
template<int B> static void invariant(MITCCRH<B>& h, Ghost<B>& g) {
	vc_assert(beq(h.start_point, g.S), "start point unchanged"); vc_assert((h.key_used >= 0) & (h.key_used <= B), "key_used in range"); vc_assert(h.gid - (u64)(B - h.key_used) == g.next, "keys consumed are exactly the ones used: indices strictly increase");
	for (int i = 0; i < B; ++i) if (i >= h.key_used) { block rk[11]; spec_schedule(kj(g.S, h.gid - B + i), rk); for (int r = 0; r < 11; ++r) vc_assert(beq(h.scheduled_key[i].rd_key[r], rk[r]), "pending keys are scheduled for their own index"); }
}
template<int B, int K, int H, bool CIR> static void step(int used) {
	MITCCRH<B> h; Ghost<B> g; arbitrary(h, used, g); block x[K * H + 1], y[K * H + 1]; vc_fill_blocks(x, K * H + 1, "x"); memcpy(y, x, sizeof x);
	if (CIR) h.template hash_cir<K, H>(x); else h.template hash<K, H>(x);
	u64 first = used + K > B ? g.next + (B - used) : g.next;      // a call that does not fit in the pending keys discards them and starts a new batch
	for (int i = 0; i < K; ++i) for (int j = 0; j < H; ++j) { block m = CIR ? sg(y[i * H + j]) : y[i * H + j]; vc_assert(beq(x[i * H + j], spec_aes(kj(g.S, first + i), m) ^ m), "hash is AES under its own key XOR its input"); }
	vc_assert(beq(x[K * H], y[K * H]), "hash writes only its blocks"); vc_assert(first >= g.next, "a new call uses later keys"); g.next = first + K; invariant(h, g);
}
template<int B, int K, int H> static void both() { int used = (int)vc_choice("used", 0, B); vc_assume(used % K == 0 || used == B); if (vc_choice("cir", 0, 1)) step<B, K, H, true>(used); else step<B, K, H, false>(used); }
VC_HARNESS(hash_2_1) { both<8, 2, 1>(); }
VC_HARNESS(hash_2_2) { both<8, 2, 2>(); }
VC_HARNESS(hash_1_1) { both<8, 1, 1>(); }
VC_HARNESS(hash_1_3) { both<8, 1, 3>(); }
VC_HARNESS(hash_4_2) { both<8, 4, 2>(); }
VC_HARNESS(hash_8_1) { both<8, 8, 1>(); }
VC_HARNESS(hash_b2) { both<2, 2, 1>(); }
VC_HARNESS(hash_b1) { both<1, 1, 2>(); }
// mixed call sizes: an arbitrary number of keys already used (a mix of sizes can leave any remainder)
template<int K> static void mixed() { step<8, K, 1, false>((int)vc_choice("used", 0, 8)); }
VC_HARNESS(mixed_2) { mixed<2>(); }
VC_HARNESS(mixed_4) { mixed<4>(); }
VC_HARNESS(mixed_8) { mixed<8>(); }
VC_HARNESS(renew) {
	MITCCRH<8> h; Ghost<8> g; arbitrary(h, (int)vc_choice("used", 0, 8), g); u64 j = vc_sym("j", 0, 1ull << 62); h.renew_ks(j); g.next = j; vc_assert(h.key_used == 0, "renewal starts a fresh batch"); invariant(h, g);
}
VC_HARNESS(fresh) {
	MITCCRH<8> h; block S = vc_block("S"); h.setS(S); Ghost<8> g; g.S = S; g.next = 0; invariant(h, g); block x = vc_block("x"), y = x; h.hash<1, 1>(&x); vc_assert(beq(x, spec_aes(S, y) ^ y), "the first key of a fresh object has index 0");
	block z = vc_block("z"), w = z; h.hash_cir<1, 1>(&z); vc_assert(beq(z, spec_aes(kj(S, 1), sg(w)) ^ sg(w)), "the second call uses the next key"); g.next = 2; invariant(h, g);
	vc_assert(!beq(kj(S, 5), kj(S, 7)), "distinct indices give distinct keys");
}
VC_HARNESS(distinct) { block S = vc_block("S"); u64 i = vc_u64("i"), j = vc_u64("j"); vc_assume(i != j); vc_assert(!beq(kj(S, i), kj(S, j)), "distinct indices give distinct keys"); }
