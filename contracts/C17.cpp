#include <random>
#include "vc_rt.h"
namespace std { struct vc_random_device { vc_random_device(const char*) {} uint32_t operator()() { return vc_u32("rd"); } }; }
#define random_device vc_random_device
#include "aes_spec.h"
//@ all sym=0
struct Ks { block rk[11]; Ks(block k) { spec_schedule(k, rk); } block operator()(u64 c) const { return spec_cipher(rk, makeBlock(0, c)); } };
// arbitrary reachable generator: any seed, any counter
static PRG make(block s, u64 c) { PRG p(&s); p.counter = c; return p; }
VC_HARNESS(seeding) {
	block s = vc_block("s"); u64 d = vc_sym("d", 0, 0x7fffffff); PRG p(&s, (int)d); block k = s ^ makeBlock(0, d); Ks ks(k); block o[3]; p.random_block(o, 3); for (int i = 0; i < 3; ++i) vc_assert(beq(o[i], ks(i)), "keystream of seed XOR stream id from counter 0"); vc_assert(beq(p.key, k), "key recorded");
	block t = vc_block("t"); u64 d2 = vc_u64("d2"); u64 w = p(); p.random_data(&w, 5); p.reseed(&t, d2); Ks k2(t ^ makeBlock(0, d2)); u64 x = p(); block b = k2(0); u64 y[2]; memcpy(y, &b, 16); vc_assert(x == y[0], "after reseeding the word buffer belongs to the new seed"); p.reseed(&t, d2); p.random_block(o, 2); for (int i = 0; i < 2; ++i) vc_assert(beq(o[i], k2(i)), "reseeding restarts the counter under the new key");
	PRG q(&s); q.random_block(o, 1); Ks k3(s); vc_assert(beq(o[0], k3(0)), "stream id defaults to 0");
}
VC_HARNESS(unaligned_seed) { uint8_t buf[24]; vc_fill_bytes(buf, 24, "buf"); block s; memcpy(&s, buf + 3, 16); PRG p(buf + 3); block o; p.random_block(&o); Ks k(s); vc_assert(beq(o, k(0)), "seed may be unaligned"); }
VC_HARNESS(random_seed) { PRG p; block o; block k = p.key; p.random_block(&o); Ks ks(k); vc_assert(beq(o, ks(0)), "a randomly seeded generator is the keystream of its key"); }
VC_HARNESS(blocks) {
	u64 n = vc_size("n", 0, 1 << 20, "0,1,7,8,9,17|0..40"), c = vc_sym("c", 0, 1ull << 62); block s = vc_block("s"); PRG p = make(s, c); Ks ks(s); block* o = new block[n + 1]; vc_fill_blocks(o, n + 1, "o"); block g = o[n];
	p.random_block(o, (int)n); VC_FORALL(j, n) vc_assert(beq(o[j], ks(c + j)), "block draws are consecutive counters"); vc_assert(beq(o[n], g), "block draws write only the requested blocks"); vc_assert(p.counter == c + n, "block draws consume one counter per block");
}
template<int F> static void bytes() {
	u64 n = vc_size("n", 0, 1 << 20, "0,1,5,15,16,17,31,32,33,40,130,150|0..70"), al = F == 0 ? 0 : vc_choice("align", 0, 15), c = vc_sym("c", 0, 1ull << 62); block s = vc_block("s"); PRG p = make(s, c); Ks ks(s);
	block* st = new block[n / 16 + 4]; uint8_t* base = (uint8_t*)st; uint8_t* o = base + al; vc_fill_bytes(base, n + al + 1, "o"); uint8_t* b0 = new uint8_t[n + al + 1]; memcpy(b0, base, n + al + 1);
	if (F == 0) p.random_data(o, (int)n); else if (F == 1) p.random_data_unaligned(o, (int)n); else p.random_bool((bool*)o, (int)n);
	block* e0 = new block[n / 16 + 1]; for (u64 j = 0; j <= n / 16; ++j) e0[j] = ks(c + j); const uint8_t* eb = (const uint8_t*)e0;
	VC_FORALL(j, n) { uint8_t e = eb[j]; if (F == 2) e &= 1; vc_assert(o[j] == e, "byte requests return the next keystream bytes"); }
	VC_FORALL(j, al) vc_assert(base[j] == b0[j], "byte requests write nothing before the buffer"); vc_assert(o[n] == b0[n + al], "byte requests write only the requested bytes");
	vc_assert(p.counter == c + (n + 15) / 16, "byte requests consume ceil(n/16) counters whatever the alignment");
}
VC_HARNESS(data) { bytes<0>(); }
VC_HARNESS(data_unaligned) { bytes<1>(); }
VC_HARNESS(bools) { bytes<2>(); }
VC_HARNESS(words) {
	u64 c = vc_sym("c", 0, 1ull << 62), pos = vc_choice("pos", 0, 32); block s = vc_block("s"); PRG p = make(s, c); Ks ks(s); p.random_block((block*)p.buffer, 16); p.ptr = pos;      // arbitrary position in the word buffer
	for (u64 i = 0; i < 34; ++i) { u64 k = pos + i; block b = ks(c + k / 2); u64 w[2]; memcpy(w, &b, 16); vc_assert(p() == w[k % 2], "word draws return consecutive keystream words"); }
	vc_assert((PRG::min() == 0) & (PRG::max() == ~0ull), "word range");
}
