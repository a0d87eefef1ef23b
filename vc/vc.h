// Vocabulary of the executable contracts.  Symbolically these are interpreted by /verif/vc; natively (replay, witness search) by vc_native.cpp.
#pragma once
#include "emp-tool/emp-tool.h"
#include "emp-tool/emp-tool.cpp"
#include "vc_rt.h"
#ifdef VC_NATIVE
#define VC_FORALL(j, n) for (uint64_t j = 0; j < (uint64_t)(n); ++j)
#else
#define VC_FORALL(j, n) for (uint64_t j = vc_first(n), vc_end_##j = vc_last(n, j); j < vc_end_##j; ++j)
#endif
#define VC_HARNESS(name) extern "C" void h_##name()
namespace emp {
// abstract gate backend: wires are opaque, gates are the Boolean functions
class AbsBackend : public CircuitExecution { public:
	block and_gate(const block& a, const block& b) override { return vc_and(a, b); }
	block xor_gate(const block& a, const block& b) override { return vc_xor(a, b); }
	block not_gate(const block& a) override { return vc_not(a); }
	block public_label(bool b) override { return vc_wire(b); }
	uint64_t num_and() override { return vc_ngates(); }
};
class AbsProt : public ProtocolExecution { public:
	AbsProt() : ProtocolExecution(PUBLIC) {}
	void feed(block* out, int party, const bool* b, int n) override { for (int i = 0; i < n; ++i) out[i] = vc_wire(b[i]); }
	void reveal(bool* out, int party, const block* in, int n) override { for (int i = 0; i < n; ++i) out[i] = vc_val(in[i]); }
};
inline void vc_setup_abs() {
	CircuitExecution::circ_exec = new AbsBackend();
	ProtocolExecution::prot_exec = new AbsProt();
}
}
