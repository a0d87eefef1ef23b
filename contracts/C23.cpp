#include "gio.h"
#include "vc.h"
using namespace emp;
typedef uint64_t u64;
//@ all sym=0
#define N NETWORK_BUFFER_SIZE2
static uint8_t* bytes(u64 n, const char* nm) { uint8_t* d = new uint8_t[n + 1]; vc_fill_bytes(d, n + 1, nm); return d; }
static gio::Wire* src(u64 n, const char* nm) { gio::Wire* w = gio::wire(); vc_fill_bytes(w->b, n, nm); for (u64 i = 0; i < n; ++i) w->k[i] = 1; w->w = w->f = n; return w; }
static NetIO* net(bool server, gio::Wire* in, gio::Wire* out) { gio::plan_in[gio::nconn] = in; gio::plan_out[gio::nconn] = out; return server ? new NetIO(nullptr, 5555, true) : new NetIO("127.0.0.1", 5555, true); }
static void same(const uint8_t* a, const uint8_t* b, u64 n, u64 g) { for (u64 i = 0; i < n; ++i) vc_assert(a[i] == b[i], "received bytes are the sent bytes in order"); vc_assert(a[n] == g, "a receive writes only the requested bytes"); }
// ---- NetIO
VC_HARNESS(net_connect) {
	bool server = vc_choice("server", 0, 1); gio::fails = server ? 0 : (int)vc_choice("fails", 0, 2); gio::Wire* a = gio::wire(), *b = gio::wire(); NetIO* io = net(server, a, b);
	vc_assert(gio::nconn == 1 && gio::want_port[0] == htons(5555), "connection on the requested port"); vc_assert(io->is_server == server, "role"); vc_assert(gio::nodelay[io->consocket] == 1, "no delay is set on the connection"); delete io;
}
VC_HARNESS(net_send) {
	u64 n = vc_size("n", 0, 40, "0,1,2,3,5,20|0..24"); gio::parts = 3; gio::Wire* a = gio::wire(), *b = gio::wire(); NetIO* io = net(vc_choice("server", 0, 1), a, b); uint8_t* d = bytes(n, "d"), *e = new uint8_t[n + 1]; memcpy(e, d, n + 1); u64 k = vc_u64("c"); io->counter = k; io->send_data(d, n);
	vc_assert(b->w == n, "every sent byte reaches the stream once"); same(b->b, e, n, b->b[n]); same(d, e, n, e[n]); vc_assert(io->counter - k == n, "counter counts sent bytes"); io->flush(); vc_assert(b->f == n, "flush flushes the stream"); delete io;
}
VC_HARNESS(net_recv) {
	u64 n = vc_size("n", 0, 40, "0,1,2,3,5,20|0..24"); gio::parts = 3; gio::Wire* a = src(n + 2, "w"), *b = gio::wire(); NetIO* io = net(vc_choice("server", 0, 1), a, b); uint8_t* o = bytes(n, "o"); u64 g = o[n]; io->recv_data(o, n); same(o, a->b, n, g); vc_assert(a->r == n, "a receive consumes exactly its bytes"); uint8_t t[2]; t[1] = 9; io->recv_data(t, 1); vc_assert(t[0] == a->b[n], "the next receive continues where the last one ended"); delete io;
}
VC_HARNESS(net_dtor) { gio::Wire* a = gio::wire(), *b = gio::wire(); NetIO* io = net(true, a, b); uint8_t d[3] = {1, 2, 3}; io->send_data(d, 3); delete io; vc_assert(b->f == 3, "closing the channel flushes what was sent"); }
// two parties, arbitrary alternation: party A runs first receiving promised bytes, party B must then keep those promises
struct Step { int who; u64 n; };
template<class IO> static void talk(IO* A, IO* B, gio::Wire* ab, gio::Wire* ba, gio::File* rA, gio::File* rB, const Step* s, int ns, bool fin) {
	uint8_t** pay = new uint8_t*[ns]; uint8_t** got = new uint8_t*[ns]; for (int i = 0; i < ns; ++i) { pay[i] = bytes(s[i].n, "pay"); got[i] = bytes(s[i].n, "got"); }
	gio::prophecy = true;
	for (int p = 0; p < 2; ++p) {
		IO* io = p == 0 ? A : B; gio::npend = 1; gio::pend[0] = p == 0 ? ab : ba;
		for (int i = 0; i < ns; ++i) if (s[i].who == p) io->send_data(pay[i], s[i].n); else { uint8_t g = got[i][s[i].n]; io->recv_data(got[i], s[i].n); vc_assert(got[i][s[i].n] == g, "a receive stays inside its buffer"); }
		if (fin) io->flush();
	}
	for (u64 i = 0; i < GIO_WIRE; ++i) vc_assert((ab->k[i] != 2) & (ba->k[i] != 2), "every received byte was sent by the peer");
	for (int i = 0; i < ns; ++i) for (u64 j = 0; j < s[i].n; ++j) vc_assert(got[i][j] == pay[i][j], "both parties agree on every transferred byte");
	// no deadlock: replay the blocking order
	int ia = 0, ib = 0; for (int k = 0; k < 48; ++k) { u64 fa = ia < rA->nev ? rA->ev[ia].have : ab->f, fb = ib < rB->nev ? rB->ev[ib].have : ba->f; if (ia < rA->nev && rA->ev[ia].need <= fb) ++ia; else if (ib < rB->nev && rB->ev[ib].need <= fa) ++ib; else break; }
	vc_assert((ia == rA->nev) & (ib == rB->nev), "no receive waits for bytes the peer has not flushed");
}
VC_HARNESS(net_talk) {
	u64 a = vc_size("a", 0, 20, "0,1,5,17"), b = vc_choice("b", 0, 2) * 4, c = vc_choice("c", 0, 1) * 3; gio::parts = 1; gio::Wire* ab = gio::wire(), *ba = gio::wire(); NetIO* A = net(true, ba, ab), *B = net(false, ab, ba);
	Step s[6] = {{0, a}, {0, 2}, {1, b}, {1, 1}, {0, c}, {1, 3}}; talk(A, B, ab, ba, (gio::File*)A->stream, (gio::File*)B->stream, s, 6, true);
}
VC_HARNESS(net_sync) {
	gio::Wire* ab = gio::wire(), *ba = gio::wire(); NetIO* A = net(true, ba, ab), *B = net(false, ab, ba); u64 n = vc_choice("n", 0, 1) * 4; uint8_t* d = bytes(n, "d"), *o = bytes(n, "o"); gio::prophecy = true; gio::npend = 1;
	gio::pend[0] = ab; A->send_data(d, n); A->sync(); gio::pend[0] = ba; B->recv_data(o, n); B->sync(); for (u64 i = 0; i < n; ++i) vc_assert(o[i] == d[i], "bytes before a sync are delivered"); for (u64 i = 0; i < GIO_WIRE; ++i) vc_assert((ab->k[i] != 2) & (ba->k[i] != 2), "sync is symmetric"); vc_assert((ab->r == ab->w) & (ba->r == ba->w) & (ab->f == ab->w) & (ba->f == ba->w), "sync leaves nothing unread or unflushed");
}
// ---- FileIO
VC_HARNESS(file) {
	u64 n = vc_size("n", 0, 60, "0,1,3,16,17,40|0..30"), m = vc_choice("m", 0, 2) * 3, pre = vc_choice("pre", 0, 1) * 5; gio::parts = 2; gio::disk_n = pre; uint8_t* d = bytes(n + m, "d"), *o = bytes(n + m, "o"); u64 g = o[n + m];
	FileIO* w = new FileIO("ch", false); w->send_data(d, n); w->send_data(d + n, m); vc_assert(w->counter == n + m, "counter counts file bytes"); vc_assert(w->bytes_sent == n + m, "bytes_sent counts file bytes"); bool again = vc_choice("again", 0, 1); if (again) { w->reset(); w->recv_data(o, n + m); same(o, d, n + m, g); } delete w; vc_assert(gio::disk_n == n + m, "the file holds exactly the sent bytes");
	FileIO* r = new FileIO("ch", true); u64 h = n / 2; r->recv_data(o, h); r->recv_data(o + h, n + m - h); same(o, d, n + m, g); r->reset(); r->recv_data(o, h); for (u64 i = 0; i < h; ++i) vc_assert(o[i] == d[i], "reset returns to the start of the file"); r->flush(); delete r; vc_assert(gio::disk_n == n + m, "reading leaves the file unchanged");
}
// ---- HighSpeedNetIO: one step of each direction from an arbitrary state (counter phase, fill and contents of the frame buffer)
static SenderSubChannel* snd(gio::Wire* out, u64 phase, u64 ptr) { int fd = gio::nextfd++; gio::plan_in[gio::nconn] = nullptr; gio::plan_out[gio::nconn] = out; gio::up(fd, 0); SenderSubChannel* c = new SenderSubChannel(fd); vc_assert(c->ptr == 0, "sender starts empty"); vc_fill_bytes(c->buf, N, "buf"); c->ptr = (int)ptr; c->counter = phase; out->w = phase; return c; }
VC_HARNESS(hs_send_step) {
	u64 n = vc_size("n", 0, 40, "0,1,7,8,9,17|0..24"), ph = vc_choice("phase", 0, N - 1), ptr = vc_choice("ptr", 0, N); gio::parts = 1; gio::Wire* w = gio::wire(); vc_fill_bytes(w->b, ph, "past"); SenderSubChannel* c = snd(w, ph, ptr); uint8_t* want = bytes(ph + ptr + n, "want"); memcpy(want, w->b, ph); memcpy(want + ph, c->buf, ptr); uint8_t* d = bytes(n, "d"); memcpy(want + ph + ptr, d, n);
	c->send_data(d, (int)n); vc_assert((c->ptr >= 0) & (c->ptr <= N), "frame buffer fill in range"); vc_assert(c->counter == w->w, "sub-channel counter counts stream bytes"); vc_assert(w->w + c->ptr == ph + ptr + n, "every byte is on the stream or in the buffer once"); for (u64 i = 0; i < w->w; ++i) vc_assert(w->b[i] == want[i], "stream bytes are the sent bytes in order"); for (int i = 0; i < c->ptr; ++i) vc_assert((uint8_t)c->buf[i] == want[w->w + i], "buffered bytes follow in order");
	c->flush(); u64 tot = ph + ptr + n; vc_assert(w->f == w->w, "flush flushes the stream of the high-speed channel"); vc_assert((w->w % N == 0) & (w->w >= tot) & (w->w < tot + N), "flush pads to the end of the frame"); for (u64 i = 0; i < tot; ++i) vc_assert(w->b[i] == want[i], "flushed bytes are the sent bytes in order"); vc_assert((c->ptr == 0) & (c->counter == w->w), "nothing is buffered after a flush"); delete c;
}
VC_HARNESS(hs_recv_step) {
	u64 n = vc_size("n", 0, 40, "0,1,7,8,9,16,17|0..24"), ptr = vc_choice("ptr", 0, N); gio::parts = 1; u64 avail = N - ptr, need = n > avail ? (n - avail + N - 1) / N * N : 0; gio::Wire* w = src(need + 2 * N, "w"); int fd = gio::nextfd++; gio::plan_in[gio::nconn] = w; gio::plan_out[gio::nconn] = nullptr; gio::wo[0] = gio::wire(); gio::plan_out[gio::nconn] = gio::wo[0]; gio::up(fd, 0);
	RecverSubChannel* c = new RecverSubChannel(fd); vc_assert(c->ptr == N, "receiver starts at a frame boundary"); c->ptr = (int)ptr; vc_fill_bytes(c->buf, N, "buf"); uint8_t* want = new uint8_t[N + need + 2 * N]; memcpy(want, c->buf + ptr, avail); memcpy(want + avail, w->b, need + 2 * N); uint8_t* o = bytes(n, "o"); u64 g = o[n];
	c->recv_data(o, (int)n); same(o, want, n, g); vc_assert((c->ptr >= 0) & (c->ptr <= N), "read position in range"); vc_assert(w->r == need, "no frame is awaited that the request does not need"); vc_assert(w->r + avail - (N - c->ptr) == n, "unread bytes are kept"); for (int i = c->ptr; i < N; ++i) vc_assert((uint8_t)c->buf[i] == want[n + i - c->ptr], "unread bytes follow in order");
	c->flush(); uint8_t* o2 = bytes(3, "o2"); c->recv_data(o2, 3); for (int i = 0; i < 3; ++i) vc_assert(o2[i] == w->b[need + i], "after a flush reception continues with the next frame"); delete c;
}
VC_HARNESS(hs_talk) {
	u64 a = vc_size("a", 0, 30, "0,1,7,8,9,16,23|0..20"), b = vc_choice("b", 0, 3), c = vc_choice("c", 0, 2); static const u64 L[4] = {1, 8, 9, 16}; gio::parts = 0; gio::Wire* ab = gio::wire(), *ba = gio::wire(); bool srv = vc_choice("srv", 0, 1);
	gio::plan_in[0] = ba; gio::plan_out[0] = ab; gio::plan_in[1] = ba; gio::plan_out[1] = ab; HighSpeedNetIO* A = srv ? new HighSpeedNetIO(nullptr, 1111, 2222) : new HighSpeedNetIO("127.0.0.1", 1111, 2222); vc_assert((gio::want_port[0] == htons(1111)) & (gio::want_port[1] == htons(2222)), "connections on the requested ports");
	gio::plan_in[2] = ab; gio::plan_out[2] = ba; gio::plan_in[3] = ab; gio::plan_out[3] = ba; HighSpeedNetIO* B = srv ? new HighSpeedNetIO("127.0.0.1", 1111, 2222) : new HighSpeedNetIO(nullptr, 1111, 2222); vc_assert((gio::want_port[2] == htons(1111)) & (gio::want_port[3] == htons(2222)), "connections on the peer's ports");
	vc_assert((A->send_sock != A->recv_sock) & (B->send_sock != B->recv_sock), "separate directions");
	Step s[7] = {{0, a}, {0, L[b]}, {1, L[c]}, {1, 7}, {0, 8}, {0, 3}, {1, 2}}; if (vc_choice("first", 0, 1)) for (int i = 0; i < 7; ++i) s[i].who ^= 1;
	talk(A, B, ab, ba, (gio::File*)A->rchannel->stream, (gio::File*)B->rchannel->stream, s, 7, true); delete A; delete B;
}
