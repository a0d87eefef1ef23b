#include "aes_spec.h"
//@ all sym=0
//@ key_schedule
VC_HARNESS(key_schedule) {
	block k = vc_block("k"); AES_KEY a; AES_set_encrypt_key(k, &a); block rk[11]; spec_schedule(k, rk);
	for (int i = 0; i < 11; ++i) vc_assert(beq(a.rd_key[i], rk[i]), "round keys of the key expansion are FIPS-197"); vc_assert(a.rounds == 10, "ten rounds");
}
template<int N> static void batched() {
	block k[N]; vc_fill_blocks(k, N, "k"); block k0[N]; memcpy(k0, k, sizeof k); AES_KEY a[N + 1]; vc_havoc(a, sizeof a); AES_KEY g; memcpy(&g, a + N, sizeof g); AES_opt_key_schedule<N>(k, a);
	for (int j = 0; j < N; ++j) { block rk[11]; spec_schedule(k0[j], rk); for (int i = 0; i < 11; ++i) vc_assert(beq(a[j].rd_key[i], rk[i]), "batched key expansion is FIPS-197 for every key"); vc_assert(a[j].rounds == 10, "ten rounds (batched)"); vc_assert(beq(k[j], k0[j]), "user keys unchanged"); }
	vc_assert(memcmp(&g, a + N, 11 * 16) == 0, "batched key expansion writes only its keys");
}
VC_HARNESS(batch1) { batched<1>(); }
VC_HARNESS(batch2) { batched<2>(); }
VC_HARNESS(batch4) { batched<4>(); }
VC_HARNESS(batch8) { batched<8>(); }
VC_HARNESS(encrypt) {
	u64 n = vc_size("n", 0, 1 << 20, "0,1,2,7,8,9,16,17|0..33"); AES_KEY a; vc_fill_blocks(a.rd_key, 11, "rk"); a.rounds = 10; block r0[11]; memcpy(r0, a.rd_key, sizeof r0);
	block* b = new block[n + 2]; vc_fill_blocks(b, n + 2, "b"); block* b0 = new block[n + 2]; memcpy(b0, b, 16 * (n + 2));
	AES_ecb_encrypt_blks(b + 1, (unsigned)n, &a);
	VC_FORALL(j, n) vc_assert(beq(b[j + 1], spec_cipher(r0, b0[j + 1])), "every block encrypted independently");
	vc_assert(beq(b[0], b0[0]) & beq(b[n + 1], b0[n + 1]), "encryption touches only the given blocks");
	for (int i = 0; i < 11; ++i) vc_assert(beq(a.rd_key[i], r0[i]), "round keys unchanged by encryption");
}
template<int N> static void fixedn() {
	AES_KEY a; vc_fill_blocks(a.rd_key, 11, "rk"); a.rounds = 10; block b[N + 1]; vc_fill_blocks(b, N + 1, "b"); block b0[N + 1]; memcpy(b0, b, sizeof b);
	AES_ecb_encrypt_blks<N>(b, &a); for (int j = 0; j < N; ++j) vc_assert(beq(b[j], spec_cipher(a.rd_key, b0[j])), "fixed-size encryption"); vc_assert(beq(b[N], b0[N]), "fixed-size encryption frame");
}
VC_HARNESS(encrypt_fixed) { fixedn<1>(); fixedn<3>(); fixedn<8>(); fixedn<16>(); }
VC_HARNESS(decrypt) {
	u64 n = vc_size("n", 0, 1 << 20, "0,1,2,8,9|0..20"); block k = vc_block("k"); AES_KEY e, d, f; AES_set_encrypt_key(k, &e); AES_set_decrypt_key(k, &d); AES_set_decrypt_key_fast(&f, &e); f.rounds = 10; d.rounds = 10;
	block* b = new block[n + 1]; vc_fill_blocks(b, n + 1, "b"); block* c = new block[n + 1]; memcpy(c, b, 16 * (n + 1)); block* g = new block[n + 1]; memcpy(g, b, 16 * (n + 1));
	AES_ecb_encrypt_blks(c, (unsigned)n, &e); memcpy(g, c, 16 * n); AES_ecb_decrypt_blks(c, (unsigned)n, &d); AES_ecb_decrypt_blks(g, (unsigned)n, &f);
	VC_FORALL(j, n + 1) vc_assert(beq(c[j], b[j]) & beq(g[j], b[j]), "decryption inverts encryption");
}
VC_HARNESS(decrypt_rounds) { block k = vc_block("k"); AES_KEY d; AES_set_decrypt_key(k, &d); vc_assert(d.rounds == 10, "decryption key has its round count"); block x = vc_block("x"), y = spec_aes(k, x); AES_ecb_decrypt_blks(&y, 1, &d); vc_assert(beq(x, y), "decryption inverts FIPS-197 encryption"); }
template<int K, int H> static void para() {
	AES_KEY a[K]; for (int i = 0; i < K; ++i) { vc_fill_blocks(a[i].rd_key, 11, "rk"); a[i].rounds = 10; } block b[K * H + 1]; vc_fill_blocks(b, K * H + 1, "b"); block b0[K * H + 1]; memcpy(b0, b, sizeof b);
	ParaEnc<K, H>(b, a);
	for (int i = 0; i < K; ++i) for (int j = 0; j < H; ++j) vc_assert(beq(b[i * H + j], spec_cipher(a[i].rd_key, b0[i * H + j])), "each group under its own key"); vc_assert(beq(b[K * H], b0[K * H]), "multi-key encryption frame");
}
VC_HARNESS(multikey) { para<1, 1>(); para<2, 1>(); para<2, 2>(); para<1, 4>(); para<4, 2>(); para<8, 1>(); para<8, 2>(); para<3, 5>(); }
VC_HARNESS(permute) {
	u64 n = vc_size("n", 0, 1 << 20, "0,1,7,8,9,15,16,17,33|0..50"); block k = vc_block("k"); PRP p(k);
	block* b = new block[n + 2]; vc_fill_blocks(b, n + 2, "b"); block* b0 = new block[n + 2]; memcpy(b0, b, 16 * (n + 2));
	p.permute_block(b + 1, (int)n); block rk[11]; spec_schedule(k, rk);
	VC_FORALL(j, n) vc_assert(beq(b[j + 1], spec_cipher(rk, b0[j + 1])), "permutation object applies AES-128 to every block"); vc_assert(beq(b[0], b0[0]) & beq(b[n + 1], b0[n + 1]), "permutation frame");
}
VC_HARNESS(prp_keys) { block k = vc_block("k"), x = vc_block("x"), y = x; PRP p(k); PRP z; p.permute_block(&x, 1); vc_assert(beq(x, spec_aes(k, y)), "keyed permutation"); x = y; z.permute_block(&x, 1); vc_assert(beq(x, spec_aes(makeBlock(0, 0), y)), "default permutation uses the zero key"); z.aes_set_key(k); x = y; z.permute_block(&x, 1); vc_assert(beq(x, spec_aes(k, y)), "re-keyed permutation"); }
