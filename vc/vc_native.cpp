// Native runtime of the contract vocabulary: replays a counterexample or searches for one at random on the real compiled code.
#include "vc_rt.h"
#include <map>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <wmmintrin.h>
#include <unistd.h>
using std::string;
typedef __m128i block_;
static std::map<string, std::vector<string> > replay; static std::map<string, int> cnt; static uint64_t rs = 88172645463325252ull; static bool trace_ = false;
static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static string nm(const char* n) { int k = cnt[n]++; return k ? string(n) + "." + std::to_string(k) : string(n); }
static uint64_t hexv(const string& s, int skip) { // 64-bit word number skip (0 = lowest) of hex number
	string t = s; size_t n = t.size(); if ((size_t)skip * 16 >= n) return 0; size_t e = n - skip * 16, b = e > 16 ? e - 16 : 0; return strtoull(t.substr(b, e - b).c_str(), 0, 16); }
static bool getrep(const string& k, std::vector<string>*& v) { auto it = replay.find(k); if (it == replay.end()) return false; v = &it->second; return true; }
static int mode_ = 0; // edge bias per run
static uint64_t rv(int w) { uint64_t m = w == 64 ? ~0ull : ((1ull << w) - 1); uint64_t r = rnd();
	switch ((rnd() >> 20) % 9) { case 0: return 0; case 1: return m; case 2: return 1ull << ((rnd() >> 9) % w) & m; case 3: return ((r & 7)) & m; case 4: return (1ull << (w - 1)); case 5: return (m - (r & 7)) & m; default: return (r >> 3) & m; } }
extern "C" {
static uint64_t one(const char* n, int w) { string k = nm(n); std::vector<string>* v; if (getrep(k, v)) return hexv((*v)[0], 0); uint64_t r = rv(w); if (trace_) fprintf(stderr, "input %s %lx\n", k.c_str(), (unsigned long)r); return r; }
uint64_t vc_u64(const char* n) { return one(n, 64); } uint32_t vc_u32(const char* n) { return one(n, 32); } uint16_t vc_u16(const char* n) { return one(n, 16); } uint8_t vc_u8(const char* n) { return one(n, 8); } bool vc_bool(const char* n) { return one(n, 1) & 1; }
block_ vc_block(const char* n) { string k = nm(n); std::vector<string>* v; if (getrep(k, v)) return _mm_set_epi64x(hexv((*v)[0], 1), hexv((*v)[0], 0)); uint64_t a = rv(64), b = rv(64); if (trace_) fprintf(stderr, "input %s %016lx%016lx\n", k.c_str(), (unsigned long)a, (unsigned long)b); return _mm_set_epi64x(a, b); }
uint64_t vc_choice(const char* n, uint64_t lo, uint64_t hi) { string k = nm(n); std::vector<string>* v; uint64_t r; if (getrep(k, v)) r = hexv((*v)[0], 0); else r = lo + (rnd() >> 11) % (hi - lo + 1); if (r < lo || r > hi) r = lo; if (trace_) fprintf(stderr, "input %s %lx\n", k.c_str(), (unsigned long)r); return r; }
uint64_t vc_sym(const char* n, uint64_t lo, uint64_t hi) { string k = nm(n); std::vector<string>* v; uint64_t r; if (getrep(k, v)) { r = hexv((*v)[0], 0); } else { uint64_t span = hi - lo + 1; if (span == 0) span = ~0ull; r = (rnd() >> 60) < 4 && span > 64 ? lo + (rnd() >> 11) % 64 : (rnd() >> 60) < 2 ? hi : lo + (rnd() >> 3) % span; } if (r < lo || r > hi) r = lo; if (trace_) fprintf(stderr, "input %s %lx\n", k.c_str(), (unsigned long)r); return r; }
uint64_t vc_size(const char* n, uint64_t lo, uint64_t hi, const char* conc) {
	string k = nm(n); std::vector<string>* v; uint64_t r;
	if (getrep(k, v)) r = hexv((*v)[0], 0);
	else { std::vector<uint64_t> l; const char* p = conc; while (p && *p) { char* e; uint64_t x = strtoull(p, &e, 10); if (e == p) break; l.push_back(x); p = *e ? e + 1 : e; }
		uint64_t mx = 8; for (auto x : l) if (x > mx) mx = x; mx = mx * 3 + 3; if (mx > hi) mx = hi;
		if (l.size() && (rnd() >> 33) % 2) r = l[(rnd() >> 11) % l.size()]; else r = lo + (rnd() >> 11) % (mx - lo + 1); }
	if (r < lo || r > hi) r = lo; if (trace_) fprintf(stderr, "input %s %lx\n", k.c_str(), (unsigned long)r); return r; }
uint64_t vc_index(uint64_t n) { return n ? rnd() % n : 0; }
void vc_assume(bool b) { if (!b) { fflush(stdout); _exit(77); } }
void vc_assert(bool b, const char* m) { if (!b) { printf("ASSERTION-FAILED %s\n", m); fflush(stdout); _exit(3); } }
void vc_cover(const char*) {}
bool vc_symbolic() { return false; }
static void fill(void* p, uint64_t n, const char* name, int cs, int kind) {
	string k = nm(name); std::vector<string>* v = 0; bool has = getrep(k, v); unsigned char* d = (unsigned char*)p; bool allsame = (rnd() >> 40) % 8 == 0;
	for (uint64_t i = 0; i < n; ++i) {
		uint64_t lo, hi = 0;
		if (has) { if (i < v->size()) { lo = hexv((*v)[i], 0); hi = hexv((*v)[i], 1); } else lo = 0; }
		else if (kind) lo = allsame ? 0 : (rnd() >> 30) & 1; else { lo = cs > 8 ? rv(64) : rv(cs * 8); hi = rv(64); }
		if (kind == 2) { block_ b = _mm_set_epi64x(0x7761697265000000ll, lo & 1); memcpy(d + i * 16, &b, 16); }
		else if (kind == 1) d[i] = lo & 1;
		else { memcpy(d + i * cs, &lo, cs < 8 ? cs : 8); if (cs == 16) memcpy(d + i * 16 + 8, &hi, 8); }
		if (trace_ && n <= 512) fprintf(stderr, "input %s[%lu] %lx%s\n", k.c_str(), (unsigned long)i, (unsigned long)lo, ""); } }
void vc_fill_bytes(void* p, uint64_t n, const char* m) { fill(p, n, m, 1, 0); } void vc_fill_blocks(void* p, uint64_t n, const char* m) { fill(p, n, m, 16, 0); }
void vc_fill_bools(void* p, uint64_t n, const char* m) { fill(p, n, m, 1, 1); } void vc_fill_wires(void* p, uint64_t n, const char* m) { fill(p, n, m, 16, 2); }
void vc_fill_u64(void* p, uint64_t n, const char* m) { fill(p, n, m, 8, 0); } void vc_fill_u32(void* p, uint64_t n, const char* m) { fill(p, n, m, 4, 0); }
void vc_havoc(void* p, uint64_t n) { for (uint64_t i = 0; i < n; ++i) ((unsigned char*)p)[i] = rnd() >> 17; }
static uint64_t ng = 0;
static int wv(block_ a) { uint64_t w[2]; memcpy(w, &a, 16); if (w[1] != 0x7761697265000000ull || w[0] > 1) vc_assert(false, "a gate operand is not a wire produced by the backend"); return (int)w[0]; }
block_ vc_wire(bool b) { return _mm_set_epi64x(0x7761697265000000ll, b); } bool vc_val(block_ a) { return wv(a); }
block_ vc_and(block_ a, block_ b) { ++ng; return vc_wire(wv(a) & wv(b)); } block_ vc_xor(block_ a, block_ b) { return vc_wire(wv(a) ^ wv(b)); } block_ vc_not(block_ a) { return vc_wire(!wv(a)); }
uint64_t vc_ngates() { return ng; }
uint64_t vc_uf(const char* n, uint64_t a, uint64_t b, uint64_t c) { uint64_t h = 1469598103934665603ull; for (; *n; ++n) h = (h ^ (unsigned char)*n) * 1099511628211ull; uint64_t v[3] = {a, b, c}; for (int i = 0; i < 3; ++i) { h = (h ^ v[i]) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h | 1; }
block_ vc_aes_srsb(block_ x) { return _mm_aesenclast_si128(x, _mm_setzero_si128()); } block_ vc_aes_isrsb(block_ x) { return _mm_aesdeclast_si128(x, _mm_setzero_si128()); }
block_ vc_aes_imc(block_ x) { return _mm_aesimc_si128(x); } block_ vc_aes_mc(block_ x) { block_ z = _mm_setzero_si128(); return _mm_aesenc_si128(_mm_aesdeclast_si128(x, z), z); }
uint32_t vc_aes_subword(uint32_t w) { block_ k = _mm_aeskeygenassist_si128(_mm_set_epi32(0, 0, w, 0), 0); return _mm_extract_epi32(k, 0); }
block_ vc_clmul(uint64_t a, uint64_t b) { return _mm_clmulepi64_si128(_mm_set_epi64x(0, a), _mm_set_epi64x(0, b), 0); }
}
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
#include <time.h>
// usage: prog harness replay <file> | prog harness search <seconds> <seed>
int main(int c, char** v) {
	void (*h)() = (void (*)())dlsym(RTLD_DEFAULT, (string("h_") + v[1]).c_str());
	if (!h) { fprintf(stderr, "no harness\n"); return 2; }
	if (string(v[2]) == "replay") {
		FILE* f = fopen(v[3], "r"); if (!f) return 2; static char buf[1 << 22];
		while (fgets(buf, sizeof buf, f)) { char* t = strtok(buf, " \n"); if (!t || t[0] == '#') continue; string k = t; std::vector<string> x; while ((t = strtok(0, " \n"))) x.push_back(t); replay[k] = x; }
		if (c > 4) rs ^= strtoull(v[4], 0, 10) * 0x9E3779B97F4A7C15ull;
		trace_ = getenv("VC_TRACE"); h(); printf("REPLAY-OK\n"); return 0;
	}
	double lim = atof(v[3]); uint64_t seed = c > 4 ? strtoull(v[4], 0, 10) : 1; time_t t0 = time(0); struct timespec a, b; clock_gettime(CLOCK_MONOTONIC, &a);
	uint64_t runs = 0, maxruns = c > 5 ? strtoull(v[5], 0, 10) : 100000;
	for (uint64_t i = 0; runs < maxruns; ++i) {
		clock_gettime(CLOCK_MONOTONIC, &b); if (b.tv_sec - a.tv_sec + (b.tv_nsec - a.tv_nsec) * 1e-9 > lim) break;
		pid_t p = fork();
		if (!p) { rs ^= (seed * 1000003 + i + 1) * 0x9E3779B97F4A7C15ull; for (int j = 0; j < 10; ++j) rnd(); alarm(20); if (!freopen("/dev/null", "w", stderr)) {} h(); fflush(stdout); _exit(0); }
		int st; waitpid(p, &st, 0);
		if (WIFEXITED(st) && (WEXITSTATUS(st) == 0)) { ++runs; continue; }
		if (WIFEXITED(st) && WEXITSTATUS(st) == 77) continue;
		printf("FOUND %lu status %d\n", (unsigned long)i, st); fflush(stdout);
		p = fork();
		if (!p) { rs ^= (seed * 1000003 + i + 1) * 0x9E3779B97F4A7C15ull; for (int j = 0; j < 10; ++j) rnd(); alarm(20); trace_ = true; dup2(1, 2); h(); _exit(0); }
		waitpid(p, &st, 0); return 3;
	}
	printf("SEARCHED %lu runs\n", (unsigned long)runs); return 0;
}
