#include "ints.h"
//@ encode_int mergeint=1
VC_HARNESS(encode_int) {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, "1,2,8,31,32,33,63,64,65,100|1..70"), party = vc_choice("party", 0, 2); int64_t v = (int64_t)vc_u64("v");
	Integer a((int)n, v, (int)party);
	vc_assert(a.bits.size() == n, "encoded width");
	VC_FORALL(j, n) { bool e = j < 64 ? ((v >> (j & 63)) & 1) : (v < 0); vc_assert(at(a, j) == e, "64-bit input modulo 2^n or sign-extended"); }
	if (!vc_symbolic()) {
		u64 m = msk(n);
		vc_assert(a.reveal<u64>((int)party) == ((u64)v & m), "reveal as u64 returns the low bits");
		vc_assert(a.reveal<int64_t>((int)party) == (int64_t)((u64)v & m), "reveal as i64 returns the low bits zero-filled");
		vc_assert(a.reveal<uint32_t>((int)party) == (uint32_t)((u64)v & m), "reveal as u32 returns the low bits");
		vc_assert(a.reveal<int32_t>((int)party) == (int32_t)(uint32_t)((u64)v & m), "reveal as i32 returns the low bits");
	}
}
template<typename T> static void enc_mem() {
	vc_setup_abs(); u64 n = vc_size("n", 1, 1 << 20, "1,7,8,9,32,65|1..70"), party = vc_choice("party", 0, 2); u64 nb = (n + 7) / 8;
	uint8_t* in = new uint8_t[nb]; vc_fill_bytes(in, nb, "in"); uint8_t* out = new uint8_t[nb]; vc_fill_bytes(out, nb, "out"); uint8_t* o0 = new uint8_t[nb]; memcpy(o0, out, nb);
	Integer a((int)n, (T*)in, (int)party);
	vc_assert(a.bits.size() == n, "memory-encoded width");
	VC_FORALL(j, n) vc_assert(at(a, j) == ((in[j / 8] >> (j % 8)) & 1), "memory input bit by bit little-endian");
	a.reveal((T*)out, (int)party);
	VC_FORALL(k, nb * 8) vc_assert(((out[k / 8] >> (k % 8)) & 1) == ((k < n ? in[k / 8] : o0[k / 8]) >> (k % 8) & 1), "reveal to memory writes exactly the first n bits");
}
//@ encode_bytes mergeint=1
VC_HARNESS(encode_bytes) { enc_mem<uint8_t>(); }
//@ encode_whole sym=0
VC_HARNESS(encode_whole) {
	vc_setup_abs(); u64 party = vc_choice("party", 0, 2); u64 v = vc_u64("v"); uint32_t w = vc_u32("w"); block b = vc_block("b");
	Integer a(&v, (int)party), c(&w, (int)party), d(&b, (int)party);
	vc_assert(a.bits.size() == 64 && c.bits.size() == 32 && d.bits.size() == 128, "whole-object width");
	vc_assert(pk(a) == v && pk(c) == w, "whole-object input little-endian"); u64 o; uint32_t p; block q; a.reveal(&o, (int)party); c.reveal(&p, (int)party); d.reveal(&q, (int)party);
	vc_assert(o == v && p == w, "whole-object round trip"); vc_assert(memcmp(&q, &b, 16) == 0, "block round trip");
	Float f; vc_assert(f.size() == 32, "float width");
}
//@ bit_io sym=0
VC_HARNESS(bit_io) {
	vc_setup_abs(); u64 party = vc_choice("party", 0, 2); bool v = vc_bool("v"); Bit b(v, (int)party);
	vc_assert(vc_val(b.bit) == v, "bit encoding"); vc_assert(b.reveal<bool>((int)party) == v, "bit reveal");
}
//@ bit_string sym=0
VC_HARNESS(bit_string) { vc_setup_abs(); bool v = vc_choice("v", 0, 1); Bit b(v, PUBLIC); string s = b.reveal<string>(PUBLIC); vc_assert(s == (v ? "true" : "false"), "bit revealed as text"); }
//@ int_string sym=0
VC_HARNESS(int_string) { vc_setup_abs(); u64 n = vc_size("n", 1, 64, "1,3,4"); u64 v = vc_choice("v", 0, 15); Integer a((int)n, (int64_t)v, ALICE); string s = a.reveal<string>(PUBLIC); vc_assert(s.size() == n, "string length"); for (u64 i = 0; i < n; ++i) vc_assert(s[i] == (((v >> i) & 1) ? '1' : '0'), "string digits, least significant first"); }
VC_HARNESS(to_bool) {
	u64 n = vc_size("n", 0, 1 << 20, "0,1,7,8,9,64,65|0..70"); bool rev = vc_choice("rev", 0, 1); u64 nb = (n + 7) / 8 + (n == 0);
	uint8_t* in = new uint8_t[nb]; vc_fill_bytes(in, nb, "in"); bool* d = new bool[n + 1]; vc_fill_bools(d, n + 1, "d0"); bool last = d[n];
	to_bool(d, (const uint8_t*)in, (int)n, rev);
	VC_FORALL(j, n) vc_assert(d[rev ? n - 1 - j : j] == ((in[j / 8] >> (j % 8)) & 1), "to_bool yields the first n bits in the requested order");
	vc_assert(d[n] == last, "to_bool writes only n elements");
	uint8_t* out = new uint8_t[nb]; vc_fill_bytes(out, nb, "out"); uint8_t* o0 = new uint8_t[nb]; memcpy(o0, out, nb);
	from_bool((const bool*)d, out, (int)n, rev);
	VC_FORALL(k, nb * 8) vc_assert(((out[k / 8] >> (k % 8)) & 1) == ((k < n ? in[k / 8] : o0[k / 8]) >> (k % 8) & 1), "from_bool inverts to_bool and touches only n bits");
}
VC_HARNESS(from_bool) {
	u64 n = vc_size("n", 0, 1 << 20, "0,1,7,8,9,64,65|0..70"); bool rev = vc_choice("rev", 0, 1); u64 nb = (n + 7) / 8 + (n == 0); bool* d = new bool[n ? n : 1]; vc_fill_bools(d, n, "d");
	uint8_t* out = new uint8_t[nb]; vc_fill_bytes(out, nb, "out"); uint8_t* o0 = new uint8_t[nb]; memcpy(o0, out, nb);
	from_bool((const bool*)d, out, (int)n, rev);
	VC_FORALL(k, nb * 8) { bool e = k < n ? d[rev ? n - 1 - k : k] : (o0[k / 8] >> (k % 8)) & 1; vc_assert(((out[k / 8] >> (k % 8)) & 1) == e, "from_bool packs in the requested order"); }
}
//@ blocks sym=0
VC_HARNESS(blocks) {
	block b = vc_block("b"); bool d[128]; block_to_bool(d, b); u64 w[2]; memcpy(w, &b, 16);
	for (int i = 0; i < 128; ++i) vc_assert(d[i] == ((w[i / 64] >> (i % 64)) & 1), "block_to_bool is little-endian");
	block c = bool_to_block(d); vc_assert(memcmp(&b, &c, 16) == 0, "bool_to_block inverts block_to_bool");
	bool e[128]; vc_fill_bools(e, 128, "e"); block f = bool_to_block(e); u64 x[2]; memcpy(x, &f, 16);
	for (int i = 0; i < 128; ++i) vc_assert(e[i] == ((x[i / 64] >> (i % 64)) & 1), "bool_to_block is little-endian");
	vc_assert(bool_to_int<u64>(e) == x[0], "bool_to_int 64"); vc_assert(bool_to_int<uint32_t>(e) == (uint32_t)x[0], "bool_to_int 32"); vc_assert(bool_to_int<uint8_t>(e) == (uint8_t)x[0], "bool_to_int 8");
}
VC_HARNESS(int_to_bool) { u64 n = vc_size("n", 0, 64, "0,1,31,64|0..64"); u64 v = vc_u64("v"); bool* d = new bool[n + 1]; vc_fill_bools(d, n + 1, "d"); bool l = d[n]; int_to_bool<u64>(d, v, (int)n); VC_FORALL(j, n) vc_assert(d[j] == ((v >> (j & 63)) & 1), "int_to_bool"); vc_assert(d[n] == l, "int_to_bool writes only n"); }
