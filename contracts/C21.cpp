#include "aes_spec.h"
#include "emp-tool/io/mem_io_channel.h"
//@ all sym=0
// ghost byte queue: everything sent since the last clear/load, and how much was received
struct Q { uint8_t b[96]; u64 w, r; Q() : w(0), r(0) {} };
static void inv(MemIO& m, Q& q) {
	vc_assert((m.size - m.read_pos == (int64_t)(q.w - q.r)) & (m.read_pos >= 0), "unread byte count"); vc_assert((m.size >= 0) & (m.size <= m.cap), "stored bytes fit the buffer");
	for (u64 k = q.r; k < q.w; ++k) vc_assert((uint8_t)m.buffer[m.read_pos + (k - q.r)] == q.b[k], "unread bytes are the sent bytes in order");
}
static void send(MemIO& m, Q& q, u64 n) { uint8_t* d = new uint8_t[n + 1]; vc_fill_bytes(d, n, "d"); uint8_t* e = new uint8_t[n + 1]; memcpy(e, d, n); m.send_data(d, n); for (u64 k = 0; k < n; ++k) { vc_assert(d[k] == e[k], "sent buffer unchanged"); q.b[q.w++] = e[k]; } inv(m, q); }
static void recv(MemIO& m, Q& q, u64 n) {
	uint8_t* d = new uint8_t[n + 1]; vc_fill_bytes(d, n + 1, "o"); uint8_t* e = new uint8_t[n + 1]; memcpy(e, d, n + 1); m.recv_data(d, n);
	if (n <= q.w - q.r) { for (u64 k = 0; k < n; ++k) vc_assert(d[k] == q.b[q.r + k], "received bytes are the next unread bytes"); q.r += n; } else for (u64 k = 0; k < n; ++k) vc_assert(d[k] == e[k], "an excessive receive delivers nothing");
	vc_assert(d[n] == e[n], "receive writes only the requested bytes"); inv(m, q);
}
// one operation from an arbitrary reachable state: any capacity, fill level and read position, any content
static void arbitrary(MemIO& m, Q& q, u64 cap, u64 size, u64 rp) {
	m.~MemIO(); m.buffer = new char[cap]; vc_fill_bytes(m.buffer, cap, "buf"); m.cap = cap; m.size = size; m.read_pos = rp; q.w = size; q.r = rp; memcpy(q.b, m.buffer, size);
}
#define STATE u64 cap = vc_size("cap", 1, 64, "1,2,5,8|1..12"), size = vc_choice("size", 0, cap), rp = vc_choice("rp", 0, size); MemIO m(1); Q q; arbitrary(m, q, cap, size, rp); inv(m, q);
VC_HARNESS(step_send) { STATE u64 n = vc_choice("n", 0, 2 * cap + 3); u64 c = m.counter; send(m, q, n); vc_assert(m.counter == c + n, "counter counts the bytes sent"); }
VC_HARNESS(step_recv) { STATE u64 n = vc_choice("n", 0, size + 2); recv(m, q, n); }
VC_HARNESS(step_clear) { STATE m.clear(); q.w = q.r = 0; inv(m, q); send(m, q, 3); recv(m, q, 4); recv(m, q, 2); }
VC_HARNESS(history) {
	u64 cap = vc_size("cap", 1, 64, "1,3,16"); MemIO m(cap); Q q; inv(m, q); u64 a = vc_choice("a", 0, 6), b = vc_choice("b", 0, 5), c = vc_choice("c", 0, 7), op = vc_choice("op", 0, 2); send(m, q, a); recv(m, q, b); if (op == 1) { m.clear(); q.w = q.r = 0; } if (op == 2) send(m, q, 9); send(m, q, c); recv(m, q, c); recv(m, q, 1);
}
VC_HARNESS(big) { MemIO m; Q q; inv(m, q); send(m, q, 40); recv(m, q, 7); recv(m, q, 33); recv(m, q, 1); }
VC_HARNESS(dtor) { MemIO* m = new MemIO(4); uint8_t d[9]; vc_fill_bytes(d, 9, "d"); m->send_data(d, 9); delete m; }
