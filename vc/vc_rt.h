#pragma once
#include <cstdint>
#include <immintrin.h>
typedef __m128i vc_blk;
extern "C" {
uint64_t vc_u64(const char*); uint32_t vc_u32(const char*); uint16_t vc_u16(const char*); uint8_t vc_u8(const char*); bool vc_bool(const char*);
vc_blk vc_block(const char*);
uint64_t vc_choice(const char*, uint64_t lo, uint64_t hi);                   // case split
uint64_t vc_size(const char*, uint64_t lo, uint64_t hi, const char* conc);   // size parameter: symbolic in the unbounded mode, one of conc in the bounded mode
uint64_t vc_sym(const char*, uint64_t lo, uint64_t hi);                      // symbolic index-like integer in both modes
uint64_t vc_index(uint64_t n);                                               // an arbitrary index below n (universally quantified)
uint64_t vc_first(uint64_t n); uint64_t vc_last(uint64_t n, uint64_t first);
void vc_assume(bool); void vc_assert(bool, const char*); void vc_cover(const char*);
bool vc_symbolic();
void vc_fill_bytes(void*, uint64_t n, const char*); void vc_fill_blocks(void*, uint64_t n, const char*); void vc_fill_bools(void*, uint64_t n, const char*); void vc_fill_wires(void*, uint64_t n, const char*);
void vc_fill_u64(void*, uint64_t n, const char*); void vc_fill_u32(void*, uint64_t n, const char*);
void vc_havoc(void*, uint64_t n);
vc_blk vc_and(vc_blk, vc_blk); vc_blk vc_xor(vc_blk, vc_blk); vc_blk vc_not(vc_blk); vc_blk vc_wire(bool); bool vc_val(vc_blk);
uint64_t vc_ngates();
vc_blk vc_aes_srsb(vc_blk); vc_blk vc_aes_isrsb(vc_blk); vc_blk vc_aes_mc(vc_blk); vc_blk vc_aes_imc(vc_blk); uint32_t vc_aes_subword(uint32_t);
vc_blk vc_clmul(uint64_t, uint64_t);
uint64_t vc_uf(const char*, uint64_t, uint64_t, uint64_t);                    // an uninterpreted function
}
