// Contracts of the stdio and socket functions used by /repo's channels, as executable ghost implementations.  A stream accepts and delivers any positive part of a request; bytes handed to a stream stay unflushed until it is flushed.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <iomanip>
#include <locale>
#include <map>
#include <set>
#include <list>
#include <array>
#include <deque>
#include <queue>
#include <mutex>
#include <thread>
#include <future>
#include <chrono>
#include <random>
#include <limits>
#include <cmath>
#include <cassert>
#include <bitset>
#include <utility>
#include <unordered_map>
#include <unordered_set>
#include <condition_variable>
#include <fstream>
#include <sstream>
#include <string>
#include <memory>
#include <vector>
#include <functional>
#include <stdexcept>
#include <algorithm>
#include <unistd.h>
#include <arpa/inet.h>
#include <netinet/tcp.h>
#include <netinet/in.h>
#include <sys/types.h>
#include <sys/socket.h>
#include "vc_rt.h"
#include "emp-tool/utils/ThreadPool.h"
#include "emp-tool/utils/constants.h"
#ifndef GIO_REAL
#define NETWORK_BUFFER_SIZE2 8
#define NETWORK_BUFFER_SIZE 16
#define FILE_BUFFER_SIZE 16
#endif
namespace gio {
typedef uint64_t u64;
#ifndef GIO_WIRE
#define GIO_WIRE 256
#endif
struct Wire { uint8_t b[GIO_WIRE]; uint8_t k[GIO_WIRE]; u64 w, f, r; };   // content, known bytes (1 written, 2 promised to the reader before being written), written, flushed, read
struct Ev { u64 need, have; };                                             // a receive waiting for byte `need` of its wire while `have` bytes of the outgoing wire are flushed
struct File { int open, mode; Wire *in, *out; char* buf; u64 bufn; u64 pos, size; uint8_t* data; Ev ev[24]; int nev; Wire* mine; int partial; };
static File* byfd[8]; static int nextfd = 3, fails = 0, sock_live = 0, nodelay[16];
static uint8_t disk[GIO_WIRE]; static u64 disk_n = 0; static File* last_open = nullptr;
static bool prophecy = false, check_unflushed = true; static int parts = 1, part_calls = 0;
static Wire* pend[4]; static int npend = 0;                                // wires whose bytes must be flushed before any receive
static inline void touch(File* f) { if (f->buf) { f->buf[0] = 1; f->buf[f->bufn - 1] = 2; } }
// how much of an n-byte request is transferred now: any positive part, all cases for short requests, {1, half, all} otherwise; at most `parts` interrupted calls per run
static inline u64 part(u64 n) { if (n <= 1 || part_calls >= parts) return n; ++part_calls; if (n <= 4) return vc_choice("part", 1, n); u64 c = vc_choice("part", 0, 3); return c == 0 ? 1 : c == 1 ? n / 2 : c == 2 ? n - 1 : n; }
static inline File* F(FILE* f) { File* x = (File*)f; vc_assert(x != nullptr && x->open == 1, "stream functions are called on an open stream"); return x; }
static inline u64 wr(const void* p, u64 sz, u64 n, FILE* s) {
	File* f = F(s); touch(f); vc_assert(sz == 1 || n <= 1, "element-wise write"); n = sz == 1 ? n : n * sz; u64 k = part(n); const uint8_t* d = (const uint8_t*)p;
	if (f->data) { for (u64 i = 0; i < k; ++i) { f->data[f->pos] = d[i]; ++f->pos; if (f->pos > f->size) f->size = f->pos; } if (f->data == disk) disk_n = f->size; return k; }
	Wire* w = f->out; for (u64 i = 0; i < k; ++i) { if (w->k[w->w] == 2) vc_assume(w->b[w->w] == d[i]); else w->b[w->w] = d[i]; w->k[w->w] = 1; ++w->w; } return k;
}
static inline u64 rd(void* p, u64 sz, u64 n, FILE* s) {
	File* f = F(s); touch(f); vc_assert(sz == 1 || n <= 1, "element-wise read"); n = sz == 1 ? n : n * sz; uint8_t* o = (uint8_t*)p;
	if (f->data) { u64 k = part(n); vc_assert(f->pos + n <= f->size, "bytes are read from where they were written"); for (u64 i = 0; i < k; ++i) o[i] = f->data[f->pos++]; return k; }
	for (int j = 0; j < npend; ++j) vc_assert(pend[j]->f == pend[j]->w, "never blocks on a receive with unflushed bytes");
	Wire* w = f->in; u64 k = part(n);
	if (prophecy) { vc_assert(f->nev < 24, "event log"); f->ev[f->nev].need = w->r + n; f->ev[f->nev].have = f->mine ? f->mine->f : 0; ++f->nev; }
	for (u64 i = 0; i < k; ++i) { if (!w->k[w->r]) { vc_assert(prophecy, "only sent bytes are received"); w->b[w->r] = vc_u8("promise"); w->k[w->r] = 2; } o[i] = w->b[w->r]; ++w->r; } return k;
}
static inline int fl(FILE* s) { File* f = F(s); touch(f); if (!f->data) f->out->f = f->out->w; return 0; }
static inline int vb(FILE* s, char* b, int mode, size_t n) { File* f = F(s); vc_assert(mode == _IOFBF && n > 0, "full buffering"); f->buf = b; f->bufn = n; touch(f); return 0; }
static inline int fc(FILE* s) { fl(s); F(s)->open = 0; return 0; }
static inline void rw(FILE* s) { fl(s); F(s)->pos = 0; }
static inline File* mk(Wire* in, Wire* out) { File* f = new File; f->open = 1; f->mode = 0; f->in = in; f->out = out; f->buf = nullptr; f->bufn = 0; f->pos = f->size = 0; f->data = nullptr; f->nev = 0; f->mine = out; return f; }
static inline Wire* wire() { Wire* w = new Wire; w->w = w->f = w->r = 0; memset(w->k, 0, sizeof w->k); return w; }
static inline FILE* fop(const char* name, const char* mode) { bool r = mode[0] == 'r'; vc_assert(mode[1] == 'b' && mode[2] == '+', "binary update mode"); vc_assert(name[0] == 'c' && name[1] == 'h' && name[2] == 0, "the requested file is opened"); File* f = mk(nullptr, nullptr); f->data = disk; if (!r) disk_n = 0; f->size = disk_n; last_open = f; return (FILE*)f; }
// sockets: descriptor numbers; gio_peer[fd] gives the wires of a connected descriptor
static Wire *wi[16], *wo[16]; static int conn[16], lport[16], listening[16], lastsock = 0; static uint16_t want_port[4]; static int nconn = 0; static Wire *plan_in[4], *plan_out[4];
static inline int so(int d, int t, int) { vc_assert(d == AF_INET && t == SOCK_STREAM, "TCP socket"); vc_assert(nextfd < 16, "descriptors"); conn[nextfd] = 0; listening[nextfd] = 0; return nextfd++; }
static inline int sopt(int fd, int lvl, int opt, const void* v, socklen_t) { if (lvl == IPPROTO_TCP && opt == TCP_NODELAY) nodelay[fd] = *(const int*)v; return 0; }
static inline int bi(int fd, const struct sockaddr* a, socklen_t) { lport[fd] = ((const struct sockaddr_in*)a)->sin_port; return 0; }
static inline int li(int fd, int n) { vc_assert(n >= 1, "backlog"); listening[fd] = 1; return 0; }
static inline int up(int fd, uint16_t netport) { vc_assert(nconn < 4, "connections"); wi[fd] = plan_in[nconn]; wo[fd] = plan_out[nconn]; conn[fd] = 1; want_port[nconn] = netport; ++nconn; return fd; }
static inline int ac(int fd, struct sockaddr*, socklen_t*) { vc_assert(listening[fd] == 1, "accept on a listening socket"); int c = nextfd++; return up(c, (uint16_t)lport[fd]); }
static inline int co(int fd, const struct sockaddr* a, socklen_t) { if (fails > 0) { --fails; return -1; } vc_assert(((const struct sockaddr_in*)a)->sin_addr.s_addr == 0x0100007f, "connects to the requested address"); up(fd, ((const struct sockaddr_in*)a)->sin_port); return 0; }
static inline int cl(int fd) { conn[fd] = 2; return 0; }
static inline FILE* fdo(int fd, const char* mode) { vc_assert(conn[fd] == 1, "stream is opened on the connected socket"); vc_assert(mode[1] == 'b' && mode[2] == '+', "binary update mode"); return (FILE*)mk(wi[fd], wo[fd]); }
static inline in_addr_t ia(const char* a) { vc_assert(a[0] == '1' && a[1] == '2' && a[2] == '7', "address"); return 0x0100007f; }
static inline int us(unsigned) { return 0; }
}
#define fwrite(p, s, n, f) ::gio::wr(p, s, n, f)
#define fread(p, s, n, f) ::gio::rd(p, s, n, f)
#define fflush(f) ::gio::fl(f)
#define setvbuf(f, b, m, n) ::gio::vb(f, b, m, n)
#define fclose(f) ::gio::fc(f)
#define rewind(f) ::gio::rw(f)
#define fopen(n, m) ::gio::fop(n, m)
#define fdopen(n, m) ::gio::fdo(n, m)
#define socket(a, b, c) ::gio::so(a, b, c)
#define setsockopt(a, b, c, d, e) ::gio::sopt(a, b, c, d, e)
#define bind(a, b, c) ::gio::bi(a, b, c)
#define listen(a, b) ::gio::li(a, b)
#define accept(a, b, c) ::gio::ac(a, b, c)
#define connect(a, b, c) ::gio::co(a, b, c)
#define close(a) ::gio::cl(a)
#define inet_addr(a) ::gio::ia(a)
#define usleep(a) ::gio::us(a)
#include "emp-tool/io/io_channel.h"
#include "emp-tool/io/file_io_channel.h"
#include "emp-tool/io/mem_io_channel.h"
#include "emp-tool/io/net_io_channel.h"
#include "emp-tool/io/highspeed_net_io_channel.h"
#undef close
#undef bind
#undef listen
#undef accept
#undef connect
#undef socket
