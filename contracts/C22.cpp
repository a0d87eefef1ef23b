#include "gossl.h"
#include "vc.h"
#include <new>
using namespace emp;
typedef uint64_t u64;
//@ all sym=0
// any channel that delivers bytes in order: a ghost byte queue
class QIO : public IOChannel<QIO> { public:
	uint8_t* b; u64 w, r, cap; QIO(u64 c) : b(new uint8_t[c + 1]), w(0), r(0), cap(c) {}
	void send_data_internal(const void* d, int64_t n) { vc_assert(n >= 0 && w + n <= cap, "no more bytes are sent than the values need"); memcpy(b + w, d, n); w += n; }
	void recv_data_internal(void* d, int64_t n) { vc_assert(n >= 0 && r + n <= w, "a transfer consumes no more bytes than its counterpart produced"); memcpy(d, b + r, n); r += n; }
};
static void fin(QIO& q, u64 c0, u64 n) { vc_assert(q.counter - c0 == q.w, "the counter increases by the bytes handed to the channel"); vc_assert(q.r == q.w, "a transfer consumes exactly the bytes its counterpart produced"); (void)n; }
#define CH(c) QIO q(c); u64 c0 = vc_u64("cnt"); q.counter = c0
VC_HARNESS(data) {
	u64 n = vc_size("n", 0, 200, "0,1,2,4,15,16,17,33|0..40"); CH(n + 8); uint8_t* d = new uint8_t[n + 1], *o = new uint8_t[n + 1], *e = new uint8_t[n + 1]; vc_fill_bytes(d, n, "d"); memcpy(e, d, n); vc_fill_bytes(o, n + 1, "o"); uint8_t g = o[n];
	q.send_data(d, n); vc_assert(q.w == n, "raw data is sent as it is"); q.recv_data(o, n); for (u64 i = 0; i < n; ++i) { vc_assert(o[i] == e[i], "raw data round-trips"); vc_assert(d[i] == e[i], "sender's data unchanged"); } vc_assert(o[n] == g, "only the requested bytes are written"); fin(q, c0, n);
}
VC_HARNESS(blocks) {
	u64 n = vc_size("n", 0, 64, "0,1,2,3,7,8,9|0..17"); CH(16 * n + 16); block* d = new block[n + 1], *o = new block[n + 1]; vc_fill_blocks(d, n, "d"); vc_fill_blocks(o, n + 1, "o"); block g = o[n], *e = new block[n + 1]; memcpy(e, d, 16 * n);
	q.send_block(d, n); q.recv_block(o, n); vc_assert(memcmp(o, e, 16 * n) == 0, "blocks round-trip"); vc_assert(memcmp(&o[n], &g, 16) == 0, "only the requested blocks are written"); vc_assert(memcmp(d, e, 16 * n) == 0, "sent blocks unchanged"); fin(q, c0, 16 * n);
}
// every length and every pair of buffer alignments
static void bools(u64 n, u64 sa, u64 ra) {
	CH(n + 16); bool* db = (bool*)new u64[n / 8 + 3], *ob = (bool*)new u64[n / 8 + 3]; bool* d = db + sa, *o = ob + ra; bool* e = new bool[n + 1]; vc_fill_bools(d, n, "d"); memcpy(e, d, n); vc_fill_bools(ob, n + 16, "o"); bool* g = new bool[n + 16]; memcpy(g, ob, n + 16);
	q.send_bool(d, n); q.recv_bool(o, n); for (u64 i = 0; i < n; ++i) { vc_assert(((uint8_t*)o)[i] == (uint8_t)e[i], "Booleans round-trip"); vc_assert(d[i] == e[i], "sent Booleans unchanged"); } for (u64 i = 0; i < ra; ++i) vc_assert(ob[i] == g[i], "nothing before the array is written"); for (u64 i = ra + n; i < n + 16; ++i) vc_assert(ob[i] == g[i], "nothing after the array is written"); fin(q, c0, n);
}
VC_HARNESS(bool_any) { u64 n = vc_size("n", 0, 200, "0,1,5,7,8,9,13,16,17,64,65|0..70"), sa = vc_choice("sa", 0, 7), ra = vc_choice("ra", 0, 7); bools(n, sa, ra); }
VC_HARNESS(bool_aligned) {
	u64 n = vc_size("n", 0, 200, "0,1,7,8,9,31,32,40|0..70"); CH(n + 16); bool* d = (bool*)new u64[n / 8 + 2], *o = (bool*)new u64[n / 8 + 2]; vc_fill_bools(d, n, "d"); vc_fill_bools(o, n + 1, "o"); bool g = o[n], *e = new bool[n + 1]; memcpy(e, d, n);
	q.send_bool_aligned(d, n); q.recv_bool_aligned(o, n); for (u64 i = 0; i < n; ++i) vc_assert(((uint8_t*)o)[i] == (uint8_t)e[i], "aligned Booleans round-trip"); vc_assert(o[n] == g, "aligned receive writes only the array"); fin(q, c0, n);
}
VC_HARNESS(points) {
	u64 n = vc_size("n", 0, 8, "0,1,2,3"); gossl::PTLEN = vc_choice("big", 0, 1) ? 300 : 65; { CH(400 * n + 16); Group g1, g2; Point* a = new Point[n + 1], *b = new Point[n + 1]; u64* v = new u64[n + 1]; for (u64 i = 0; i < n; ++i) { a[i] = Point(&g1); gossl::P(a[i].point)->v = v[i] = vc_u64("p"); } if (n > 1) b[1] = Point(&g2);
	q.send_pt(a, n); q.recv_pt(&g2, b, n); for (u64 i = 0; i < n; ++i) { vc_assert(gossl::P(b[i].point)->v == v[i], "points round-trip"); vc_assert(gossl::P(a[i].point)->v == v[i], "sent points unchanged"); vc_assert(b[i].group == &g2, "received points belong to the receiver's group"); } fin(q, c0, n); delete[] a; delete[] b; }
}
// a conversation of transfers of different kinds stays aligned
VC_HARNESS(mixed) {
	u64 n = vc_size("n", 0, 64, "0,3,8,11,17"), sa = vc_choice("sa", 0, 1), ra = vc_choice("ra", 0, 1); CH(400); bool* d = (bool*)new u64[16] + sa * 3, *o = (bool*)new u64[16] + ra * 5; bool* e = new bool[n + 1]; vc_fill_bools(d, n, "d"); memcpy(e, d, n); block x = vc_block("x"), y; u64 k = vc_u64("k"), k2; Group g; Point p(&g), p2(&g); u64 pv = vc_u64("pv"); gossl::P(p.point)->v = pv;
	q.send_data(&k, 8); q.send_bool(d, n); q.send_block(&x, 1); q.send_bool(d, n); q.send_pt(&p); q.send_data(&k, 3);
	q.recv_data(&k2, 8); vc_assert(k2 == k, "first value of a conversation"); q.recv_bool(o, n); for (u64 i = 0; i < n; ++i) vc_assert(o[i] == e[i], "Booleans of a conversation"); q.recv_block(&y, 1); vc_assert(memcmp(&x, &y, 16) == 0, "block of a conversation"); q.recv_bool(o, n); for (u64 i = 0; i < n; ++i) vc_assert(o[i] == e[i], "second Booleans of a conversation"); q.recv_pt(&g, &p2); vc_assert(gossl::P(p2.point)->v == pv, "point of a conversation"); k2 = 0; q.recv_data(&k2, 3); vc_assert(k2 == (k & 0xffffff), "last value of a conversation"); fin(q, c0, 0);
}
// raw data and blocks of any length: the caller's buffer and the exact byte count are handed to the channel
class PIO : public IOChannel<PIO> { public: const void* p = nullptr; void* o = nullptr; u64 n = 0, m = 0; int calls = 0; void send_data_internal(const void* d, size_t k) { p = d; n = k; ++calls; } void recv_data_internal(void* d, size_t k) { o = d; m = k; ++calls; } };
VC_HARNESS(any_length) {
	u64 n = vc_sym("n", 1, 1ull << 40); char t; PIO q; u64 c0 = vc_sym("c", 0, 1ull << 40); q.counter = c0; q.send_data(&t, n); vc_assert((q.p == &t) & (q.n == n) & (q.calls == 1), "the whole buffer is handed to the channel"); vc_assert(q.counter == c0 + n, "the counter increases by the length"); q.recv_data(&t, n); vc_assert((q.o == &t) & (q.m == n) & (q.calls == 2), "the whole request is handed to the channel"); vc_assert(q.counter == c0 + n, "receiving leaves the sent-byte counter");
	block b; q.send_block(&b, n); vc_assert((q.p == &b) & (q.n == 16 * n), "all blocks are handed to the channel"); vc_assert(q.counter == c0 + 17 * n, "the counter increases by the bytes of the blocks"); q.recv_block(&b, n); vc_assert((q.o == &b) & (q.m == 16 * n) & (q.calls == 4), "all blocks are requested from the channel");
}
