#include "gossl.h"
#include "emp-tool/utils/constants.h"
#ifndef REAL_SIZE
#define HASH_BUFFER_SIZE 8
#define SIZES "0,1,7,8,9,17"
#else
#define SIZES "0,1,8191,8192,8200"
#endif
#include "aes_spec.h"
//@ all sym=0
// the digest must be SHA-256 of exactly the bytes inserted since the last digest/reset, in order
struct Msg { unsigned char b[40000]; u64 n; };
static void ok(const Msg& m, const unsigned char* out, int nout) {
	vc_assert(gossl::last.n == m.n, "the digest covers every inserted byte once"); for (u64 i = 0; i < m.n; ++i) vc_assert(gossl::last.log[i] == m.b[i], "inserted bytes are hashed in insertion order"); for (int i = 0; i < nout; ++i) vc_assert(out[i] == gossl::last.out[i], "the digest is returned unchanged");
}
static void put(Hash& h, Msg& m, u64 n, bool blk) { unsigned char* d = (unsigned char*)new block[n / 16 + 1]; vc_fill_bytes(d, n, "d"); memcpy(m.b + m.n, d, n); m.n += n; if (blk) h.put_block((const block*)d, (int)(n / 16)); else h.put(d, (int)n); vc_havoc(d, n < 64 ? n : 64); }
// one insertion (or digest) from an arbitrary reachable state: `c` bytes in the buffer, `p` bytes already passed on
#define STATE(P, C) Hash h; Msg* mp = new Msg; Msg& m = *mp; m.n = 0; { unsigned char* q = new unsigned char[P + C + 1]; vc_fill_bytes(q, P + C, "past"); EVP_DigestUpdate(h.mdctx, q, P); memcpy(h.buffer, q + P, C); h.size = (int)(C); memcpy(m.b, q, P + C); m.n = P + C; }
#ifndef REAL_SIZE
VC_HARNESS(step_put) { u64 n = vc_size("n", 0, 12000, "0,1,2,7,8,9,16,17|0..20"), p = vc_choice("p", 0, 3), c = vc_choice("c", 0, HASH_BUFFER_SIZE); STATE(p, c) put(h, m, n, false); vc_assert((h.size >= 0) & (h.size <= HASH_BUFFER_SIZE), "buffer fill in range"); unsigned char o[33]; o[32] = 5; h.digest(o); ok(m, o, 32); vc_assert(o[32] == 5, "digest writes 32 bytes"); }
VC_HARNESS(after_digest) { u64 c = vc_choice("c", 0, HASH_BUFFER_SIZE), n = vc_choice("n", 0, 2) * 5; STATE(2, c) unsigned char o[32]; h.digest(o); ok(m, o, 32); m.n = 0; put(h, m, n, false); h.digest(o); ok(m, o, 32); }
VC_HARNESS(after_reset) { u64 c = vc_choice("c", 0, HASH_BUFFER_SIZE), n = vc_choice("n", 0, 2) * 5; STATE(2, c) unsigned char o[32]; h.reset(); m.n = 0; put(h, m, n, false); put(h, m, 1, false); h.digest(o); ok(m, o, 32); }
VC_HARNESS(put_blocks) { u64 n = vc_choice("n", 0, 2), c = vc_choice("c", 0, HASH_BUFFER_SIZE); STATE(1, c) put(h, m, 16 * n, true); put(h, m, 3, false); put(h, m, 16, true); unsigned char o[32]; h.digest(o); ok(m, o, 32); }
VC_HARNESS(fresh) { int md = gossl::live_md; { Hash h; Msg* m = new Msg; m->n = 0; unsigned char o[32]; h.digest(o); ok(*m, o, 32); } vc_assert(gossl::live_md == md, "digest context released once"); }
VC_HARNESS(kdf) {
	gossl::PTLEN = vc_choice("big", 0, 1) ? 300 : 65; Group g; Point p(&g); u64 x = vc_u64("p"); gossl::P(p.point)->v = x; u64 id = vc_u64("id"); block r = Hash::KDF(p, id); Msg* m = new Msg; m->n = gossl::PTLEN + 8; p.to_bin(m->b, gossl::PTLEN); memcpy(m->b + gossl::PTLEN, &id, 8); ok(*m, (unsigned char*)&r, 16); vc_assert(gossl::P(p.point)->v == x, "KDF leaves the point unchanged");
	block r1 = Hash::KDF(p); u64 one = 1; memcpy(m->b + gossl::PTLEN, &one, 8); ok(*m, (unsigned char*)&r1, 16);
}
#endif
#ifndef REAL_SIZE
#define HN(x) VC_HARNESS(x)
#else
#define HN(x) VC_HARNESS(x##_real)
#endif
HN(history) { u64 a = vc_size("a", 0, 12000, SIZES), b = vc_size("b", 0, 12000, SIZES); Hash h; Msg* mp = new Msg; Msg& m = *mp; m.n = 0; put(h, m, a, false); put(h, m, b, false); put(h, m, 2, false); unsigned char o[32]; h.digest(o); ok(m, o, 32); }
HN(once) { u64 n = vc_size("n", 0, 12000, SIZES); unsigned char* d = new unsigned char[n + 1]; vc_fill_bytes(d, n, "d"); Msg* m = new Msg; memcpy(m->b, d, n); m->n = n; unsigned char o[32]; Hash::hash_once(o, d, (int)n); ok(*m, o, 32); block b = Hash::hash_for_block(d, (int)n); ok(*m, (unsigned char*)&b, 16); }
