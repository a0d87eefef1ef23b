// Contract of the standard file streams used for circuit export, as executable ghost implementations: a text file is the sequence of its whitespace-separated tokens (with line numbers); symbolic numbers are single tokens.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <iomanip>
#include <fstream>
#include <sstream>
#include <string>
#include <memory>
#include <vector>
#include <functional>
#include <stdexcept>
#include <algorithm>
#include <map>
#include <cassert>
#include "vc_rt.h"
namespace gfs {
typedef uint64_t u64;
enum { MAXT = 512 };
struct Tok { int op; int64_t v; int line; };                       // op: 0 number, otherwise the code of a word
struct Text { Tok t[MAXT]; int n; int line; int blank; bool open_tok; bool cur_word; char word[24]; int wl; int64_t num; };
static Text body, head; static int opens = 0, hopens = 0, closed = 0, hclosed = 0; static char fname[32], hname[32];
static inline void reset(Text& x) { x.n = 0; x.line = 0; x.blank = 0; x.open_tok = false; x.cur_word = false; x.wl = 0; x.num = 0; }
static inline int code(const char* w, int n) { if (n == 3 && w[0] == 'A' && w[1] == 'N' && w[2] == 'D') return 1; if (n == 3 && w[0] == 'X' && w[1] == 'O' && w[2] == 'R') return 2; if (n == 3 && w[0] == 'I' && w[1] == 'N' && w[2] == 'V') return 3; if (n == 3 && w[0] == 'N' && w[1] == 'O' && w[2] == 'T') return 4; return 9; }
static inline void put(Text& x, int op, int64_t v) { vc_assert(x.n < MAXT, "text size"); Tok& t = x.t[x.n++]; t.op = op; t.v = v; t.line = x.line; }
static inline void end(Text& x) { if (x.open_tok) { if (x.cur_word) put(x, code(x.word, x.wl), 0); else put(x, 0, x.num); } x.open_tok = false; x.cur_word = false; x.wl = 0; x.num = 0; }
static inline void ch(Text& x, char c) {
	if (c == ' ' || c == '\t' || c == '\n') { if (x.n == 0 && !x.open_tok) ++x.blank; end(x); if (c == '\n') ++x.line; return; }
	vc_assert(!(x.open_tok && x.wl < 0), "numbers are separated from what follows"); if (!x.open_tok) { x.open_tok = true; x.cur_word = !(c >= '0' && c <= '9'); x.wl = 0; x.num = 0; }
	if (x.cur_word) { if (x.wl < 23) x.word[x.wl++] = c; } else { vc_assert(c >= '0' && c <= '9', "numbers are decimal"); x.num = x.num * 10 + (c - '0'); }
}
static inline void str(Text& x, const char* s) { for (; *s; ++s) ch(x, *s); }
static inline void num(Text& x, int64_t v) { vc_assert(!x.open_tok, "numbers are separated from what precedes"); x.open_tok = true; x.cur_word = false; x.num = v; x.wl = -1; }
static inline void cpy(char* d, const char* s) { int i = 0; for (; s[i] && i < 31; ++i) d[i] = s[i]; d[i] = 0; }
}
namespace std {
struct vc_stream { gfs::Text* x; vc_stream() : x(nullptr) {} void clear() {} bool good() const { return true; } bool is_open() const { return x != nullptr; } void flush() {} };
#define VC_OPS(T) inline T& operator<<(T& f, const char* s) { vc_assert(f.x != nullptr, "text is written to an open file"); gfs::str(*f.x, s); return f; } inline T& operator<<(T& f, char c) { gfs::ch(*f.x, c); return f; } inline T& operator<<(T& f, const std::string& s) { gfs::str(*f.x, s.c_str()); return f; } \
	inline T& operator<<(T& f, int v) { gfs::num(*f.x, v); return f; } inline T& operator<<(T& f, unsigned v) { gfs::num(*f.x, v); return f; } inline T& operator<<(T& f, long v) { vc_assert(f.x != nullptr, "numbers are written to an open file"); gfs::num(*f.x, v); return f; } inline T& operator<<(T& f, unsigned long v) { gfs::num(*f.x, (long)v); return f; } inline T& operator<<(T& f, long long v) { gfs::num(*f.x, v); return f; } inline T& operator<<(T& f, unsigned long long v) { gfs::num(*f.x, (long)v); return f; } \
	inline T& operator<<(T& f, std::ostream& (*)(std::ostream&)) { vc_assert(f.x != nullptr, "lines are written to an open file"); gfs::ch(*f.x, '\n'); return f; }
struct vc_ofstream : vc_stream { vc_ofstream() {} explicit vc_ofstream(const std::string& n) { open(n); } explicit vc_ofstream(const char* n) { open(n); } ~vc_ofstream() { if (x) close(); }
	void open(const std::string& n) { open(n.c_str()); } void open(const char* n) { ++gfs::opens; gfs::cpy(gfs::fname, n); gfs::reset(gfs::body); x = &gfs::body; } void close() { if (x) gfs::end(*x); x = nullptr; ++gfs::closed; } };
struct vc_fstream : vc_stream { static const int in = 1, out = 2, trunc = 4, app = 8, binary = 16; vc_fstream(const std::string& n, int m) { open(n.c_str(), m); } vc_fstream(const char* n, int m) { open(n, m); } ~vc_fstream() { if (x) close(); }
	void open(const char* n, int m) { vc_assert((m & 3) == 3 && !(m & 12), "the header is written into the existing file"); vc_assert(gfs::closed > 0, "the header is written after the body was closed"); ++gfs::hopens; gfs::cpy(gfs::hname, n); gfs::reset(gfs::head); x = &gfs::head; } void close() { if (x) gfs::end(*x); x = nullptr; ++gfs::hclosed; } };
VC_OPS(vc_ofstream) VC_OPS(vc_fstream)
}
#define ofstream vc_ofstream
#define fstream vc_fstream
