// Contract of fopen/fscanf/fclose on circuit files, as an executable ghost implementation: a file is a sequence of number and word tokens.
#pragma once
#include "gfs.h"
namespace gsc {
struct T { int word; int v; const char* s; };
struct F { T t[400]; int n, pos, open; };
static F file; static int opens = 0, closes = 0;
static inline void clear() { file.n = file.pos = 0; file.open = 0; }
static inline void num(int v) { T& t = file.t[file.n++]; t.word = 0; t.v = v; t.s = nullptr; }
static inline void word(const char* s) { T& t = file.t[file.n++]; t.word = 1; t.v = 0; t.s = s; }
static inline T& next() { vc_assert(file.pos < file.n, "only the tokens of the file are read"); return file.t[file.pos++]; }
static inline void get(const char*& f, int* p) { vc_assert(f[0] == '%' && f[1] == 'd', "format of a number"); f += 2; T& t = next(); vc_assert(t.word == 0, "a number is read where the file has one"); *p = t.v; }
static inline void get(const char*& f, char* p) { vc_assert(f[0] == '%' && f[1] == 's', "format of a word"); f += 2; T& t = next(); vc_assert(t.word == 1, "a word is read where the file has one"); int i = 0; for (; t.s[i]; ++i) p[i] = t.s[i]; p[i] = 0; }
static inline void skip(const char*& f) { while (*f == ' ' || *f == '\n' || *f == '\t') ++f; }
static inline void rest(const char* f) { skip(f); vc_assert(*f == 0, "every conversion has its argument"); }
template<class A, class... R> static inline void rest(const char* f, A a, R... r) { skip(f); get(f, a); rest(f, r...); }
template<class... R> static inline int scan(FILE* s, const char* fmt, R... r) { vc_assert(s == (FILE*)&file && file.open == 1, "the circuit file is open"); rest(fmt, r...); return (int)sizeof...(R); }
static inline FILE* fop(const char* n, const char*) { vc_assert(n[0] == 'c' && n[1] == 0, "the requested circuit file is opened"); ++opens; file.open = 1; file.pos = 0; return (FILE*)&file; }
static inline int fcl(FILE* s) { vc_assert(s == (FILE*)&file && file.open == 1, "an open file is closed"); file.open = 0; ++closes; return 0; }
}
#define fscanf(...) ::gsc::scan(__VA_ARGS__)
#define fopen(n, m) ::gsc::fop(n, m)
#define fclose(f) ::gsc::fcl(f)
