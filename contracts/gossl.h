// Contracts of the OpenSSL functions used by /repo, as executable ghost implementations: values are opaque, the mathematical operations are uninterpreted functions, every object is tracked from creation to its single release.
#pragma once
#include <openssl/ec.h>
#include <openssl/bn.h>
#include <openssl/evp.h>
#include <openssl/sha.h>
#include <openssl/obj_mac.h>
#include <openssl/crypto.h>
#include <cstring>
#include <string>
#include <cstdint>
#include "vc_rt.h"
namespace gossl {
typedef uint64_t u64;
static int live_bn = 0, live_pt = 0, live_ctx = 0, live_grp = 0, live_md = 0;
static int PTLEN = 65;                                                      // length of a point encoding (ghost parameter)
struct Bn { u64 v; int bytes; };
struct Pt { u64 v; void* grp; };
struct Grp { int tag; Pt gen; u64 order; };
struct Ctx { int tag; };
static inline Bn* B(const BIGNUM* b) { return (Bn*)b; }
static inline Pt* P(const EC_POINT* p) { return (Pt*)p; }
static inline BIGNUM* BN_new() { ++live_bn; Bn* b = new Bn; b->v = 0; b->bytes = 0; return (BIGNUM*)b; }
static inline void BN_free(BIGNUM* b) { if (!b) return; --live_bn; delete (Bn*)b; }
static inline BIGNUM* BN_copy(BIGNUM* a, const BIGNUM* b) { *B(a) = *B(b); return a; }
static inline BIGNUM* BN_dup(const BIGNUM* b) { BIGNUM* a = gossl::BN_new(); *B(a) = *B(b); return a; }
static inline void BN_swap(BIGNUM* a, BIGNUM* b) { Bn t = *B(a); *B(a) = *B(b); *B(b) = t; }
static inline int BN_cmp(const BIGNUM* a, const BIGNUM* b) { u64 x = B(a)->v, y = B(b)->v; return x == y ? 0 : (x < y ? -1 : 1); }
static inline int BN_num_bits(const BIGNUM* b) { return 8 * B(b)->bytes; }
static inline void setv(BIGNUM* r, u64 v) { B(r)->v = v; B(r)->bytes = 8; }
static inline int BN_bn2bin(const BIGNUM* b, unsigned char* o) { for (int i = 0; i < B(b)->bytes; ++i) o[i] = (unsigned char)(B(b)->v >> (8 * (B(b)->bytes - 1 - i))); return B(b)->bytes; }
static inline BIGNUM* BN_bin2bn(const unsigned char* s, int len, BIGNUM* r) { if (!r) r = gossl::BN_new(); int k = 0; while (k < len && s[k] == 0) ++k; vc_assert(len - k <= 8, "ghost integer small enough"); u64 v = 0; for (int i = k; i < len; ++i) v = v << 8 | s[i]; B(r)->v = v; B(r)->bytes = len - k; return r; }
static inline int BN_add(BIGNUM* r, const BIGNUM* a, const BIGNUM* b) { setv(r, vc_uf("bn_add", B(a)->v, B(b)->v, 0)); return 1; }
static inline int BN_sub(BIGNUM* r, const BIGNUM* a, const BIGNUM* b) { setv(r, vc_uf("bn_sub", B(a)->v, B(b)->v, 0)); return 1; }
static inline void ctxok(BN_CTX* c) { vc_assert(c != nullptr && ((Ctx*)c)->tag == 77, "a live BN_CTX is passed"); }
static inline int BN_mul(BIGNUM* r, const BIGNUM* a, const BIGNUM* b, BN_CTX* c) { ctxok(c); setv(r, vc_uf("bn_mul", B(a)->v, B(b)->v, 0)); return 1; }
static inline int BN_div(BIGNUM* q, BIGNUM* r, const BIGNUM* a, const BIGNUM* b, BN_CTX* c) { ctxok(c); u64 x = B(a)->v, y = B(b)->v; if (q) setv(q, vc_uf("bn_div", x, y, 0)); if (r) setv(r, vc_uf("bn_mod", x, y, 0)); return 1; }
static inline int BN_nnmod(BIGNUM* r, const BIGNUM* a, const BIGNUM* b, BN_CTX* c) { ctxok(c); setv(r, vc_uf("bn_mod", B(a)->v, B(b)->v, 0)); return 1; }
static inline int BN_mod_mul(BIGNUM* r, const BIGNUM* a, const BIGNUM* b, const BIGNUM* m, BN_CTX* c) { ctxok(c); setv(r, vc_uf("bn_mod", vc_uf("bn_mul", B(a)->v, B(b)->v, 0), B(m)->v, 0)); return 1; }
static inline int BN_mod_add(BIGNUM* r, const BIGNUM* a, const BIGNUM* b, const BIGNUM* m, BN_CTX* c) { ctxok(c); setv(r, vc_uf("bn_mod", vc_uf("bn_add", B(a)->v, B(b)->v, 0), B(m)->v, 0)); return 1; }
static inline int BN_rand_range(BIGNUM* r, const BIGNUM* m) { u64 v = vc_u64("rand"); vc_assume(v < B(m)->v); setv(r, v); return 1; }
static inline BN_CTX* BN_CTX_new() { ++live_ctx; Ctx* c = new Ctx; c->tag = 77; return (BN_CTX*)c; }
static inline void BN_CTX_free(BN_CTX* c) { if (!c) return; --live_ctx; ((Ctx*)c)->tag = 0; delete (Ctx*)c; }
static inline EC_GROUP* EC_GROUP_new_by_curve_name(int nid) { vc_assert(nid == NID_X9_62_prime256v1, "the curve is P-256"); ++live_grp; Grp* g = new Grp; g->tag = 99; g->gen.v = 0x6e6; g->gen.grp = g; g->order = 0xfff1; return (EC_GROUP*)g; }
static inline void EC_GROUP_free(EC_GROUP* g) { if (!g) return; --live_grp; delete (Grp*)g; }
static inline int EC_GROUP_get_order(const EC_GROUP* g, BIGNUM* o, BN_CTX*) { setv(o, ((Grp*)g)->order); return 1; }
static inline const EC_POINT* EC_GROUP_get0_generator(const EC_GROUP* g) { return (const EC_POINT*)&((Grp*)g)->gen; }
static inline void grpok(const EC_GROUP* g) { vc_assert(g != nullptr && ((Grp*)g)->tag == 99, "a live group is passed"); }
static inline EC_POINT* EC_POINT_new(const EC_GROUP* g) { grpok(g); ++live_pt; Pt* p = new Pt; p->v = 0; p->grp = (void*)g; return (EC_POINT*)p; }
static inline void EC_POINT_free(EC_POINT* p) { if (!p) return; --live_pt; delete (Pt*)p; }
static inline int EC_POINT_copy(EC_POINT* d, const EC_POINT* s) { P(d)->v = P(s)->v; return 1; }
static inline EC_POINT* EC_POINT_dup(const EC_POINT* s, const EC_GROUP* g) { EC_POINT* p = gossl::EC_POINT_new(g); P(p)->v = P(s)->v; return p; }
static inline int EC_POINT_add(const EC_GROUP* g, EC_POINT* r, const EC_POINT* a, const EC_POINT* b, BN_CTX* c) { grpok(g); ctxok(c); P(r)->v = vc_uf("ec_add", P(a)->v, P(b)->v, 0); return 1; }
static inline int EC_POINT_invert(const EC_GROUP* g, EC_POINT* a, BN_CTX* c) { grpok(g); ctxok(c); P(a)->v = vc_uf("ec_inv", P(a)->v, 0, 0); return 1; }
static inline int EC_POINT_mul(const EC_GROUP* g, EC_POINT* r, const BIGNUM* n, const EC_POINT* q, const BIGNUM* m, BN_CTX* c) { grpok(g); ctxok(c); u64 x = 0, y = 0; bool hx = n != nullptr, hy = q != nullptr && m != nullptr; if (hx) x = vc_uf("ec_mul", ((Grp*)g)->gen.v, B(n)->v, 0); if (hy) y = vc_uf("ec_mul", P(q)->v, B(m)->v, 0); P(r)->v = hx && hy ? vc_uf("ec_add", x, y, 0) : hx ? x : hy ? y : 0; return 1; }
static inline int EC_POINT_cmp(const EC_GROUP* g, const EC_POINT* a, const EC_POINT* b, BN_CTX* c) { grpok(g); ctxok(c); return P(a)->v == P(b)->v ? 0 : 1; }
static inline size_t EC_POINT_point2oct(const EC_GROUP* g, const EC_POINT* p, point_conversion_form_t f, unsigned char* buf, size_t len, BN_CTX* c) {
	grpok(g); if (buf == nullptr) return PTLEN; vc_assert(f == POINT_CONVERSION_UNCOMPRESSED, "uncompressed encoding"); if (len < (size_t)PTLEN) return 0; for (int i = 0; i < PTLEN; ++i) buf[i] = i < 8 ? (unsigned char)(P(p)->v >> (8 * i)) : (unsigned char)(i * 3 + 4); return PTLEN; }
static inline int EC_POINT_oct2point(const EC_GROUP* g, EC_POINT* p, const unsigned char* buf, size_t len, BN_CTX* c) { grpok(g); if (len != (size_t)PTLEN) return 0; for (int i = 8; i < PTLEN; ++i) vc_assert(buf[i] == (unsigned char)(i * 3 + 4), "the bytes decoded are an encoding"); u64 v = 0; for (int i = 0; i < 8; ++i) v |= (u64)buf[i] << (8 * i); P(p)->v = v; return 1; }
// ---- message digest: the context logs what was hashed since the last initialisation
enum { LOG = 65536 };
struct Md { unsigned char* log; size_t n; int init; };
struct Dig { unsigned char* log; size_t n; unsigned char out[32]; };
static Dig last;                       // the most recent digest: message and value
static inline const EVP_MD* EVP_sha256() { return (const EVP_MD*)&live_md; }
static inline EVP_MD_CTX* EVP_MD_CTX_new() { ++live_md; Md* m = new Md; m->log = new unsigned char[LOG]; m->n = 0; m->init = 0; return (EVP_MD_CTX*)m; }
static inline void EVP_MD_CTX_free(EVP_MD_CTX* c) { if (!c) return; --live_md; delete[] ((Md*)c)->log; delete (Md*)c; }
static inline int EVP_DigestInit_ex(EVP_MD_CTX* c, const EVP_MD* t, ENGINE*) { vc_assert(t == gossl::EVP_sha256(), "the hash is SHA-256"); ((Md*)c)->n = 0; ((Md*)c)->init = 1; return 1; }
static inline int EVP_DigestUpdate(EVP_MD_CTX* c, const void* d, size_t n) { Md* m = (Md*)c; vc_assert(m->init == 1, "digest context initialised before use"); memcpy(m->log + m->n, d, n); m->n += n; return 1; }
static inline int EVP_DigestFinal_ex(EVP_MD_CTX* c, unsigned char* o, unsigned int* len) { Md* m = (Md*)c; vc_assert(m->init == 1, "digest context initialised before finalisation"); m->init = 0; last.log = new unsigned char[m->n + 1]; memcpy(last.log, m->log, m->n); last.n = m->n; vc_fill_bytes(last.out, 32, "digest"); memcpy(o, last.out, 32); if (len) *len = 32; return 1; }
static inline int EVP_Digest(const void* d, size_t n, unsigned char* o, unsigned int* len, const EVP_MD* t, ENGINE*) { EVP_MD_CTX* c = gossl::EVP_MD_CTX_new(); gossl::EVP_DigestInit_ex(c, t, 0); gossl::EVP_DigestUpdate(c, d, n); gossl::EVP_DigestFinal_ex(c, o, len); gossl::EVP_MD_CTX_free(c); return 1; }
static inline unsigned char* SHA256(const unsigned char* d, size_t n, unsigned char* o) { gossl::EVP_Digest(d, n, o, nullptr, gossl::EVP_sha256(), nullptr); return o; }
static inline int EVP_MD_CTX_reset(EVP_MD_CTX* c) { ((Md*)c)->n = 0; ((Md*)c)->init = 0; return 1; }
}
#define G_(x) ::gossl::x
#define BN_new G_(BN_new)
#define BN_free G_(BN_free)
#define BN_clear_free G_(BN_free)
#define BN_copy G_(BN_copy)
#define BN_dup G_(BN_dup)
#define BN_swap G_(BN_swap)
#define BN_cmp G_(BN_cmp)
#define BN_num_bits G_(BN_num_bits)
#define BN_bn2bin G_(BN_bn2bin)
#define BN_bin2bn G_(BN_bin2bn)
#define BN_add G_(BN_add)
#define BN_sub G_(BN_sub)
#define BN_mul G_(BN_mul)
#define BN_div G_(BN_div)
#define BN_nnmod G_(BN_nnmod)
#define BN_mod_mul G_(BN_mod_mul)
#define BN_mod_add G_(BN_mod_add)
#define BN_rand_range G_(BN_rand_range)
#define BN_CTX_new G_(BN_CTX_new)
#define BN_CTX_free G_(BN_CTX_free)
#define EC_GROUP_new_by_curve_name G_(EC_GROUP_new_by_curve_name)
#define EC_GROUP_free G_(EC_GROUP_free)
#define EC_GROUP_get_order G_(EC_GROUP_get_order)
#define EC_GROUP_get0_generator G_(EC_GROUP_get0_generator)
#define EC_POINT_new G_(EC_POINT_new)
#define EC_POINT_free G_(EC_POINT_free)
#define EC_POINT_clear_free G_(EC_POINT_free)
#define EC_POINT_copy G_(EC_POINT_copy)
#define EC_POINT_dup G_(EC_POINT_dup)
#define EC_POINT_add G_(EC_POINT_add)
#define EC_POINT_invert G_(EC_POINT_invert)
#define EC_POINT_mul G_(EC_POINT_mul)
#define EC_POINT_cmp G_(EC_POINT_cmp)
#define EC_POINT_point2oct G_(EC_POINT_point2oct)
#define EC_POINT_oct2point G_(EC_POINT_oct2point)
#define EVP_sha256 G_(EVP_sha256)
#define EVP_MD_CTX_new G_(EVP_MD_CTX_new)
#define EVP_MD_CTX_free G_(EVP_MD_CTX_free)
#define EVP_MD_CTX_reset G_(EVP_MD_CTX_reset)
#define EVP_DigestInit_ex G_(EVP_DigestInit_ex)
#define EVP_DigestInit(c, t) G_(EVP_DigestInit_ex)(c, t, nullptr)
#define EVP_DigestUpdate G_(EVP_DigestUpdate)
#define EVP_DigestFinal_ex G_(EVP_DigestFinal_ex)
#define EVP_DigestFinal G_(EVP_DigestFinal_ex)
#define EVP_Digest G_(EVP_Digest)
#define SHA256 G_(SHA256)
