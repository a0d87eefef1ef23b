#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one JSON object per line).
import json, os
P = []
def p(id, title, statement, over, text, why, files, functions=(), mechanism=(), observe=()):
    a = {"files": list(files)}
    if functions: a["functions"] = list(functions)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text},
              "why_tests_cant": why,
              "anchors": {"files": list(files),
                          "mechanism": [{"name": m, "where": w} for m, w in mechanism],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "Half-gates evaluation always yields the label of the true wire value",
  "When a half-gates garbler and evaluator process the same sequence of AND, XOR, NOT and public-constant gates over a lossless channel, every evaluator wire label equals the garbler's zero-label for that wire XORed with the global offset exactly when the wire's plaintext value is 1, for all labels, offsets and hash start points. The garbler's offset always has its lowest bit set. Each side's reported AND-gate count equals the number of AND gates it has processed.",
  ["inputs", "histories"], "all label/offset/start-point values (128 bit each), all plaintext values, all gate sequences of any length",
  "test_halfgate evaluates 32 random gates per run; a permute-bit or key-schedule-phase dependent error on one of 2^256 label pairs or at one point of the 8-key hash batch is not reached.",
  ["emp-tool/gc/halfgate_gen.h", "emp-tool/gc/halfgate_eva.h", "emp-tool/utils/mitccrh.h", "emp-tool/utils/block.h"],
  mechanism=[("halfgates_garble / halfgates_eval", "emp-tool/gc/halfgate_gen.h, halfgate_eva.h"), ("HalfGateGen, HalfGateEva", "same files")],
  observe=["labels returned by and_gate/xor_gate/not_gate/public_label", "bytes on the channel", "num_and()"])

p("C02", "Privacy-free garbling always yields the label of the true wire value",
  "When a privacy-free garbler and evaluator process the same sequence of AND, XOR, NOT and public-constant gates over a lossless channel, starting from input labels whose zero-label has lowest bit 0, every evaluator label equals the garbler's zero-label XORed with the offset exactly when the wire value is 1, and its lowest bit is the wire value. Every AND gate is hashed under its own tweak, and the reported AND-gate count is exact on both sides.",
  ["inputs", "histories"], "all labels/offsets with the scheme's parity invariant, all plaintext values, all gate sequences",
  "No test runs the privacy-free backend at all.",
  ["emp-tool/gc/privacy_free_gen.h", "emp-tool/gc/privacy_free_eva.h", "emp-tool/utils/block.h"],
  mechanism=[("privacy_free_garble / privacy_free_eval", "emp-tool/gc/privacy_free_*.h")],
  observe=["labels returned by the gates", "bytes on the channel", "num_and()"])

p("C03", "Garbling hash never reuses a key and equals its published definition",
  "For a multi-instance hash object seeded with start point S, the successive AES keys it uses are S XOR (j placed in the high 64 bits) with j strictly increasing from the configured index, so no two distinct hash calls share a key and two objects given the same start point and the same calls produce the same outputs, whatever mix of call sizes is used (keys left over that do not suffice for a call are discarded, never reused). Each hashed block x under its key K becomes AES_K(x) XOR x, or the same with x first mapped by the linear orthomorphism in the circular variant.",
  ["inputs", "histories"], "all start points and block values, all sequences of hash calls and re-keyings",
  "test_mitccrh checks fixed call shapes over one batch phase each with random data; key freshness over arbitrary histories and mixed call sizes is not sampled.",
  ["emp-tool/utils/mitccrh.h", "emp-tool/utils/aes_opt.h", "emp-tool/utils/block.h"],
  mechanism=[("MITCCRH", "emp-tool/utils/mitccrh.h")], observe=["hash outputs", "keys consumed"])

p("C04", "Plaintext backend computes Boolean gates exactly and counts them",
  "For every pair of wires, public or secret, the plaintext backend's AND, XOR and NOT return a wire whose revealed value is the Boolean function of the operands' revealed values; public operands are folded so that the result is public exactly when it is determined by public operands or absorbed by a public zero. Every non-folded gate gets a fresh consecutive wire index, and the gate and AND counters count exactly the non-folded gates.",
  ["inputs", "histories"], "all wire kinds/values/indices for every gate, all histories of gates",
  "test_bit enumerates values but not the folding, index and counter behaviour.",
  ["emp-tool/execution/plain_circ.h", "emp-tool/execution/plain_prot.h"],
  mechanism=[("PlainCircExec", "emp-tool/execution/plain_circ.h")], observe=["revealed values", "wire index", "gate/AND counters"])

p("C05", "Exported circuit text describes exactly the computation that was run",
  "With circuit export on, every executed non-folded gate appends exactly one line naming its operation, its operands' wire indices and its fresh output index, and inputs get consecutive indices. On finalisation one output gate per revealed bit is appended in reveal order so that the last wires of the file carry the revealed values - also when a revealed bit is a public constant - and the header's gate count, wire count, per-party input counts and output count match the body.",
  ["inputs", "histories", "programs"], "all wire contents and all sequences of inputs, gates and reveals",
  "test_gen_circuit only writes a file and parses it back; it never evaluates it and never reveals a constant.",
  ["emp-tool/execution/plain_circ.h", "emp-tool/execution/plain_prot.h"],
  mechanism=[("PlainCircExec printing, PlainProt::reveal/finalize, finalize_plain_prot", "emp-tool/execution/")], observe=["text written to the circuit file"])

p("C06", "Bit operators, select and swap compute their truth tables on any backend",
  "On any gate backend whose AND, XOR, NOT and constants are correct, the secret-bit operators (and, or, xor, not, ==, !=, xor-assign, select) compute their Boolean functions; the conditional choice of two values returns the first exactly when the selector is 1; and the conditional swap exchanges its two operands exactly when the selector is 1 and otherwise leaves them unchanged, for bits, integers and floats.",
  ["inputs", "configurations"], "all operand values, all backends satisfying the gate contract, all widths",
  "test_bit covers & and ^ on the plaintext backend only.",
  ["emp-tool/circuits/bit.h", "emp-tool/circuits/bit.hpp", "emp-tool/circuits/swappable.h"],
  mechanism=[("Bit", "emp-tool/circuits/bit.hpp"), ("If, swap", "emp-tool/circuits/swappable.h")], observe=["values of result wires"])

p("C07", "Integer addition, subtraction, negation and abs are exact modulo 2^n",
  "For every width n >= 1 and all operand values, secret-integer addition, subtraction and negation return the result modulo 2^n in two's complement, and abs returns the absolute value modulo 2^n (the most negative value maps to itself). Operands are not modified and results have the operands' width.",
  ["inputs", "configurations"], "all widths and all operand values",
  "test_int samples 32-bit operands with results that do not overflow; carries across other widths, overflow and extreme values are not reached.",
  ["emp-tool/circuits/integer.hpp", "emp-tool/circuits/integer.h"],
  mechanism=[("add_full, sub_full", "emp-tool/circuits/integer.hpp")], observe=["value of the result"])

p("C08", "Integer multiplication, division and remainder are exact",
  "For every width n >= 1 and all operand values, multiplication returns the product modulo 2^n; for a non-zero divisor, division returns the quotient truncated toward zero (modulo 2^n) and remainder returns the matching remainder with the dividend's sign, so that quotient*divisor+remainder equals the dividend. Modular exponentiation returns base^e mod q whenever q >= 2, q*q fits in n-1 bits and 0 <= base < q.",
  ["inputs", "configurations"], "all widths and all operand values in the stated domains",
  "test_int samples 1000 random 32-bit pairs below 2^25; widths, sign combinations at the extremes and large divisors are not covered; modExp is never checked.",
  ["emp-tool/circuits/integer.hpp"],
  mechanism=[("mul_full, div_full, condNeg, Integer::modExp", "emp-tool/circuits/integer.hpp")], observe=["value of the result"])

p("C09", "Integer comparisons implement the signed total order",
  "For every width n >= 1 and all operand values, >=, >, <=, < on secret integers decide the two's-complement signed order and ==, != decide bitwise equality; exactly one of <, ==, > holds for any pair.",
  ["inputs", "configurations"], "all widths and operand values",
  "No test checks any integer comparison's value; the sort in test_gen_circuit is only exported.",
  ["emp-tool/circuits/integer.hpp", "emp-tool/circuits/comparable.h"],
  mechanism=[("Integer::geq, Integer::equal, Comparable", "emp-tool/circuits/")], observe=["value of the result bit"])

p("C10", "Integer shifts, bitwise ops, select, resize and bit counts are exact",
  "For every width and all values: bitwise and/or/xor and select act bit by bit; shifting by a public amount gives the logical shift with zero fill (all zeros when the amount is at least the width), and shifting by a secret non-negative amount below the width gives the same result as the public shift; resize truncates or extends by the sign bit, or by zero when unsigned extension is requested. Hamming weight equals the number of one bits and leading-zeros equals the number of zero bits above the highest one bit, with results wide enough not to wrap.",
  ["inputs", "configurations"], "all widths, shift amounts and values",
  "Only 32-bit and/or/xor are tested; shifts, resize, population count and leading zeros are untested.",
  ["emp-tool/circuits/integer.hpp"],
  mechanism=[("Integer shift/resize/select/hamming_weight/leading_zeros", "emp-tool/circuits/integer.hpp")], observe=["value and width of the result"])

p("C11", "Encoding to wires and revealing are inverse for every type and width",
  "Feeding a value of any width and revealing it returns it: 64-bit inputs are taken modulo 2^n or sign-extended to the width, memory inputs are taken bit by bit little-endian, and revealing as 32/64-bit integer, bit string or raw memory returns the low bits zero-filled. The plain conversions between memory, Boolean arrays, machine integers and 128-bit blocks are mutually inverse in both bit orders, touch only the requested bits and never access memory outside the given arrays.",
  ["inputs", "configurations"], "all widths/lengths, all values, both bit orders",
  "test_to_bool checks one round trip of one struct array in one bit order; reveal is only used at 32 bits.",
  ["emp-tool/utils/utils.hpp", "emp-tool/circuits/integer.hpp", "emp-tool/circuits/float32.hpp", "emp-tool/execution/plain_prot.h"],
  mechanism=[("to_bool, from_bool, int_to_bool, bool_to_int, Integer::init/reveal", "utils.hpp, integer.hpp")], observe=["revealed values", "Boolean arrays"])

p("C12", "Oblivious sort sorts and carries its payload",
  "For every array length and all key values, sorting secret integers yields the same multiset of keys in signed ascending order when the order bit is 1 and descending when it is 0; a payload array is permuted exactly like its keys, and elements outside the given range are untouched.",
  ["inputs", "configurations"], "all lengths, all keys and payloads, both directions",
  "test_gen_circuit exports one sort of 128 elements without evaluating it.",
  ["emp-tool/circuits/number.h", "emp-tool/circuits/swappable.h", "emp-tool/circuits/integer.hpp"],
  mechanism=[("cmp_swap, bitonic_merge, bitonic_sort, sort", "emp-tool/circuits/number.h")], observe=["keys and payload after sort"])

p("C13", "Secret floats: exact sign ops and comparisons, well-formed arithmetic circuits",
  "A secret float round-trips its 32-bit pattern; negation, abs, xor, and, and select act exactly on that pattern; equality, less-than and less-or-equal agree with IEEE-754 single comparison for all non-NaN operands, subnormals being treated as zeros of their sign. Every float arithmetic and elementary-function circuit evaluates only gates whose operand wires are inputs or already computed, stays inside its wire buffer, and returns a result that is a function of the operands only; every one of them (addition, subtraction, multiplication, squaring, division, square root, sine, cosine, exponentials and logarithms) computes the same operand-to-result function as the circuit shipped at the pinned commit.",
  ["inputs"], "all 2^32 / 2^64 operand bit patterns",
  "test_float samples 1000 operands per operation in a narrow magnitude range; comparisons are not tested at all.",
  ["emp-tool/circuits/float32.hpp", "emp-tool/circuits/float32_eq.cpp", "emp-tool/circuits/float32_le.cpp", "emp-tool/circuits/float32_leq.cpp", "emp-tool/circuits/float32_add.cpp", "emp-tool/circuits/float32_sub.cpp", "emp-tool/circuits/float32_mul.cpp", "emp-tool/circuits/float32_div.cpp", "emp-tool/circuits/float32_sq.cpp", "emp-tool/circuits/float32_sqrt.cpp", "emp-tool/circuits/circuit_file.h"],
  mechanism=[("gate tables and execute_circuit", "emp-tool/circuits/float32_*.cpp")], observe=["result wires"])

p("C14", "Evaluating a circuit file computes the described circuit",
  "For every well-formed Bristol-format or Bristol-fashion circuit of AND, XOR and INV gates, loading the file and evaluating it on any backend gives, on the last wires of the circuit, the values obtained by applying the listed gates in order to the concatenated inputs, repeatedly and independently of earlier evaluations, including when the output buffer is the input buffer. The array-driven evaluator does the same for AND, XOR, NOT and OR gates.",
  ["inputs", "programs"], "all well-formed gate lists of any length, all inputs",
  "Tests load AES and sort circuits and never compare the evaluated outputs, except one AES-CTR check.",
  ["emp-tool/circuits/circuit_file.h"],
  mechanism=[("BristolFormat, BristolFashion, execute_circuit", "emp-tool/circuits/circuit_file.h")], observe=["output wires", "parsed gate table"])

p("C15", "AES primitives equal AES-128 for every key and block count",
  "For every key, key expansion (single and batched) produces the FIPS-197 AES-128 round keys; encrypting an array of any number of blocks applies AES-128 to each block independently and leaves everything else untouched; decryption with the expanded decryption key inverts encryption; the multi-key encryptor encrypts each group of blocks under its own key. The keyed permutation object applies exactly this map to every block of an array of any length.",
  ["inputs"], "all 2^128 keys and blocks, all array lengths",
  "Tests check one FIPS vector and 1000 random keys, and time the permutation without checking its output; arrays whose length is not a multiple of the batch are not compared.",
  ["emp-tool/utils/aes.h", "emp-tool/utils/aes_opt.h", "emp-tool/utils/prp.h"],
  mechanism=[("AES_set_encrypt_key, AES_ecb_encrypt_blks, AES_opt_key_schedule, ParaEnc, AES_*decrypt*", "emp-tool/utils/aes.h, aes_opt.h"), ("PRP::permute_block", "emp-tool/utils/prp.h")], observe=["round keys", "output blocks"])

p("C16", "Correlation-robust hashes equal their definition in every calling form",
  "With pi the keyed permutation and sigma the linear orthomorphism, the three fixed-key hashes compute pi(x)^x, pi(sigma(x))^sigma(x) and pi(pi(x)^i)^pi(x) respectively; the single-block, fixed-size and array forms agree block by block for every length, consecutive blocks of one tweaked call using consecutive tweaks, with or without caller-provided scratch and also when output and input are the same array. sigma is linear and both sigma and sigma XOR identity are bijections.",
  ["inputs", "configurations"], "all blocks, tweaks and keys, all array lengths",
  "No test exercises these hashes.",
  ["emp-tool/utils/crh.h", "emp-tool/utils/ccrh.h", "emp-tool/utils/tccrh.h", "emp-tool/utils/block.h", "emp-tool/utils/prp.h"],
  mechanism=[("CRH, CCRH, TCCRH", "emp-tool/utils/")], observe=["output blocks"])

p("C17", "PRG output is the AES-CTR keystream of its seed for every request history",
  "The blocks drawn from a generator with seed s and stream id d are AES under key s XOR d of the consecutive counters 0,1,2,..., for every sequence of request sizes; byte, unaligned-byte and Boolean requests return the next keystream bytes (the low bit of each byte for Booleans), consume ceil(n/16) counters whatever the buffer's alignment, and write exactly the requested bytes. Word-at-a-time draws return consecutive keystream words, and after reseeding no output depends on the previous seed.",
  ["inputs", "histories"], "all seeds and ids, all request sizes, buffer alignments and request sequences",
  "test_prg compares unaligned fills up to 62 bytes for one seed against the same implementation and ignores generator state after the call, reseeding and word draws.",
  ["emp-tool/utils/prg.h", "emp-tool/utils/aes.h"],
  mechanism=[("PRG", "emp-tool/utils/prg.h")], observe=["bytes delivered", "bytes around the buffer", "subsequent output"])

p("C18", "Incremental hash equals SHA-256 of the concatenated input",
  "For every sequence of data and block insertions of any sizes, the digest is SHA-256 of all inserted bytes in insertion order, independent of how they were chunked; after a digest or reset the object behaves like a new one; one-shot hashing and block hashing give the same SHA-256 value (truncated to 16 bytes for blocks). Key derivation from a curve point hashes the point's encoding followed by the 8-byte identifier.",
  ["inputs", "histories"], "all byte strings, all chunkings, all histories of put/digest/reset",
  "test_hash times puts of power-of-two sizes and checks no digest; mixed small and large insertions never occur.",
  ["emp-tool/utils/hash.h"],
  mechanism=[("Hash::put/digest/reset buffering", "emp-tool/utils/hash.h")], observe=["digest bytes"])

p("C19", "GF(2^128) arithmetic is exact field arithmetic",
  "For all operands, multiplication returns the product of the two polynomials modulo x^128+x^7+x^2+x+1, the unreduced form returns the full 256-bit carry-less product, and the bit-reflected variant returns the product in the reflected representation. For every vector length, inner products (reduced and unreduced), power sequences seed^1..seed^n, the packing sum of v_i*x^i and the XOR of all elements equal their definitions and write only their outputs.",
  ["inputs", "configurations"], "all field elements, all vector lengths",
  "test_f2k compares a few random elements and fixed lengths.",
  ["emp-tool/utils/f2k.h"],
  mechanism=[("mul128, reduce, reduce_reflect, gfmul, vector_*, uni_hash_coeff_gen, GaloisFieldPacking", "emp-tool/utils/f2k.h")], observe=["result blocks"])

p("C20", "Block-array utilities: transpose, XOR, comparison and bit access are exact",
  "For all row and column counts divisible by 8, the bit-matrix transpose writes at position (c,r) the input bit at (r,c) and touches exactly the output matrix; array XOR (with array or constant, including in-place) is elementwise for every length; array comparison returns true exactly when all blocks are equal; setting bit i sets exactly that bit, and the least-significant-bit test returns bit 0.",
  ["inputs", "configurations"], "all matrix shapes, array lengths and contents",
  "No test exercises the transpose or the array XOR; comparison is used only as a test helper.",
  ["emp-tool/utils/block.h"],
  mechanism=[("sse_trans, xorBlocks_arr, cmpBlock, set_bit, getLSB", "emp-tool/utils/block.h")], observe=["output arrays"])

p("C21", "In-memory channel is a lossless FIFO byte stream",
  "For every sequence of sends, receives, clears and loads of any lengths on the in-memory channel, a receive that does not exceed the unread bytes returns exactly the next unread bytes in send order; growth never loses or alters bytes; after a clear the channel behaves as empty, so the next bytes received are the first sent after it. A receive that exceeds the available bytes delivers nothing and leaves the channel unchanged, and no operation accesses memory outside the channel's and caller's buffers.",
  ["inputs", "histories"], "all operation histories, payloads and capacities",
  "test_garble writes to the channel and never reads from it.",
  ["emp-tool/io/mem_io_channel.h", "emp-tool/io/io_channel.h"],
  mechanism=[("MemIO", "emp-tool/io/mem_io_channel.h")], observe=["bytes received"])

p("C22", "Typed channel transfers round-trip on any byte channel",
  "On any channel that delivers bytes in order, receiving what was sent returns the same values for raw data, blocks, Boolean arrays and curve points, for every length, and a transfer consumes exactly the bytes its counterpart produced whatever the memory alignment of either buffer. The sent-byte counter increases by exactly the number of bytes handed to the channel.",
  ["inputs", "configurations"], "all lengths, contents and buffer alignments on both sides",
  "test_netio sends and receives Boolean arrays at equal alignments and two lengths; it never mixes alignments.",
  ["emp-tool/io/io_channel.h", "emp-tool/utils/group_openssl.h"],
  mechanism=[("IOChannel send_/recv_ block, bool, pt", "emp-tool/io/io_channel.h")], observe=["received values", "bytes handed to the channel", "counter"])

p("C23", "Network and file channels deliver bytes in order and flush before blocking",
  "As long as the underlying stream reports no end or error, bytes sent on a socket or file channel arrive unchanged and in order, for every sequence and size of sends and receives, also when the underlying stream accepts or delivers only part of a request. A channel never blocks on a receive while bytes it was asked to send are still unflushed, and the buffered high-speed channel keeps both directions aligned across every alternation of sending and receiving (an explicit flush being issued by both parties at the same point of the conversation) without reading or writing outside its buffers.",
  ["inputs", "histories", "fault_sequences"], "all send/receive histories and lengths, all partial-transfer behaviours of the underlying stream",
  "test_netio and test_netio2 use a few lengths on a loopback socket where stdio never transfers partially; buffer-boundary phases of the framed channel are not enumerated.",
  ["emp-tool/io/net_io_channel.h", "emp-tool/io/highspeed_net_io_channel.h", "emp-tool/io/file_io_channel.h"],
  mechanism=[("NetIO, FileIO, SenderSubChannel/RecverSubChannel, HighSpeedNetIO FSM", "emp-tool/io/")], observe=["bytes received", "bytes written to the stream", "flush order"])

p("C24", "Curve points and big integers behave as values",
  "Big-integer add, multiply, mod, modular add and multiply and curve-point add, scalar multiply, inverse, generator multiply, comparison and serialisation return the result of the corresponding group operation on their operands and leave the operands unchanged. Copies are independent of their source, assignment and destruction free each resource exactly once, and serialising then deserialising returns an equal value.",
  ["inputs", "histories"], "all operand values, all copy/assign/destroy histories",
  "test_ecc checks two algebraic identities with random scalars.",
  ["emp-tool/utils/group.h", "emp-tool/utils/group_openssl.h"],
  mechanism=[("BigInt, Point, Group", "emp-tool/utils/group_openssl.h")], observe=["results", "allocations"])

p("C25", "AES-CTR in and out of circuit agree chunk by chunk for every offset",
  "For every key, IV, length and start chunk (start chunk plus number of chunks below 2^64), the out-of-circuit routine XORs the input (or zeros) with the AES-128-CTR keystream whose block counter starts at IV plus the start chunk as a 128-bit big-endian number, and all in-circuit variants (secret or public key and IV, in place or not, blind only) produce the same result, so that processing a message from chunk k on equals the tail of processing it from chunk 0. Only the requested number of bits or bytes is written.",
  ["inputs", "configurations"], "all keys, IVs (including counters about to wrap), lengths, start chunks and argument forms",
  "test_aes_128_ctr checks fixed lengths with random IVs, which never carry out of the low 64 counter bits.",
  ["emp-tool/circuits/aes_128_ctr.h"],
  mechanism=[("aes_128_ctr, AES_128_CTR_Calculator", "emp-tool/circuits/aes_128_ctr.h")], observe=["output bits/bytes"])

p("C26", "Circuit shape never depends on secret values",
  "For all bit, integer, float, sort and circuit-file operations, the sequence of gates issued to the backend and the wires they connect depend only on public parameters (widths, array lengths, public shift amounts, the circuit description); no control decision or memory address is derived from the content of a wire label.",
  ["inputs"], "all wire contents for every operation and width",
  "A test run observes one execution; equality of gate sequences over all secret inputs is a relation between executions.",
  ["emp-tool/circuits/bit.hpp", "emp-tool/circuits/integer.hpp", "emp-tool/circuits/number.h", "emp-tool/circuits/float32.hpp", "emp-tool/circuits/circuit_file.h", "emp-tool/circuits/swappable.h"],
  mechanism=[("all circuit builders", "emp-tool/circuits/")], observe=["sequence of backend gate calls"])

p("C27", "Thread pool runs every submitted task exactly once",
  "Every task accepted by the pool is executed exactly once by some worker and its future becomes ready with its result or exception; destruction waits for all accepted tasks; submitting after shutdown is refused.",
  ["schedules", "histories"], "all interleavings of submitters, workers and destruction",
  "No test uses the pool.",
  ["emp-tool/utils/ThreadPool.h"],
  mechanism=[("ThreadPool", "emp-tool/utils/ThreadPool.h")], observe=["task executions", "futures"])

p("C28", "In-circuit SHA3-256 absorbs, pads and squeezes exactly as SHA3-256",
  "For every number and sizes of input pieces whose total length is a multiple of 8 bits, the in-circuit SHA3-256 XORs the concatenated bits into the 1088-bit rate in order, applies the permutation after each full block, applies the 0x06...0x80 padding after the last bit and returns the first 256 state bits, in all its calling forms.",
  ["inputs", "configurations"], "all piece counts, lengths and contents",
  "test_sha3_256 is not built here (the permutation's circuit file is missing) and would sample random lengths.",
  ["emp-tool/circuits/sha3_256.h"],
  mechanism=[("SHA3_256_Calculator", "emp-tool/circuits/sha3_256.h")], observe=["state fed to the permutation", "output bits"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
