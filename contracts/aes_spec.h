// FIPS-197 AES-128 over the vocabulary of the specification: SubBytes+ShiftRows, MixColumns and SubWord are the (uninterpreted, for the verifier) mathematical functions.
#pragma once
#include "vc.h"
using namespace emp;
typedef uint64_t u64;
inline bool beq(block a, block b) { u64 x[2], y[2]; memcpy(x, &a, 16); memcpy(y, &b, 16); return (x[0] == y[0]) & (x[1] == y[1]); }
inline uint32_t spec_rot(uint32_t w) { return (w >> 8) | (w << 24); }
// round keys of FIPS-197 section 5.2 (words little-endian in memory)
inline void spec_schedule(block k, block rk[11]) {
	static const uint32_t rcon[11] = {0, 1, 2, 4, 8, 16, 32, 64, 128, 27, 54};
	uint32_t w[44]; memcpy(w, &k, 16);
	for (int i = 4; i < 44; ++i) { uint32_t t = w[i - 1]; if (i % 4 == 0) t = vc_aes_subword(spec_rot(t)) ^ rcon[i / 4]; w[i] = w[i - 4] ^ t; }
	for (int i = 0; i < 11; ++i) memcpy(&rk[i], w + 4 * i, 16);
}
// the cipher of FIPS-197 section 5.1 under given round keys
inline block spec_cipher(const block rk[11], block x) {
	x = x ^ rk[0];
	for (int r = 1; r < 10; ++r) x = vc_aes_mc(vc_aes_srsb(x)) ^ rk[r];
	return vc_aes_srsb(x) ^ rk[10];
}
inline block spec_aes(block k, block x) { block rk[11]; spec_schedule(k, rk); return spec_cipher(rk, x); }
