From 3f4c57f8813bd58e3e6ba4a88e2a43656635a4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:43 +0000
Subject: [PATCH 01/13] fix: to_bool/from_bool reversed order indexed one past
 the array

---
 emp-tool/utils/utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/utils.hpp b/emp-tool/utils/utils.hpp
index 13e2cef..e5e730f 100644
--- a/emp-tool/utils/utils.hpp
+++ b/emp-tool/utils/utils.hpp
@@ -58,7 +58,7 @@ inline void int_to_bool(bool * data, T input, int len) {
 template<typename T>
 inline void to_bool(bool * data, const T * input, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
-		data[reverse ? len - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
+		data[reverse ? len - 1 - i : i] = (bool) ((((uint8_t *) input)[i / 8] & (((uint8_t) 1) << (i % 8))) != 0);
 	}
 }
 
@@ -70,7 +70,7 @@ template<typename T>
 inline void from_bool(const bool * data, T * output, const int len, const bool reverse) {
 	for (int i = 0; i < len; ++i) {
     ((uint8_t *) output)[i / 8] &= (~(((uint8_t) 1) << (i % 8))); // sets bit to 0
-    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - i : i]) << (i % 8)); // sets bit to bool[i]
+    ((uint8_t *) output)[i / 8] |= (((uint8_t) data[reverse ? len - 1 - i : i]) << (i % 8)); // sets bit to bool[i]
 	}
 }
 
-- 
2.43.0


From 0a5743a0c95b27fafbae9cfe2b2df899a85e86f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:22 +0000
Subject: [PATCH 02/13] fix: Hash::put hashed large inputs ahead of bytes still
 buffered

---
 emp-tool/utils/hash.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/emp-tool/utils/hash.h b/emp-tool/utils/hash.h
index 9f287a3..2756924 100644
--- a/emp-tool/utils/hash.h
+++ b/emp-tool/utils/hash.h
@@ -23,9 +23,13 @@ class Hash { public:
 		EVP_MD_CTX_destroy(mdctx);
 	}
 	void put(const void * data, int nbyte) {
-		if (nbyte >= HASH_BUFFER_SIZE)
+		if (nbyte >= HASH_BUFFER_SIZE) {
+			if(size > 0) {
+				EVP_DigestUpdate(mdctx, buffer, size);
+				size = 0;
+			}
 			EVP_DigestUpdate(mdctx, data, nbyte);
-		else if(size + nbyte < HASH_BUFFER_SIZE) {
+		} else if(size + nbyte < HASH_BUFFER_SIZE) {
 			memcpy(buffer+size, data, nbyte);
 			size+=nbyte;
 		} else {
-- 
2.43.0


From f1421159cd61e85d2eedffd065face29898e004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:22 +0000
Subject: [PATCH 03/13] fix: PRG::reseed kept words of the previous seed in the
 word buffer

---
 emp-tool/utils/prg.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5c1dba1..5e64ca7 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -52,6 +52,7 @@ class PRG { public:
 		key = v;
 		AES_set_encrypt_key(v, &aes);
 		counter = 0;
+		ptr = 32;
 	}
 
 	void random_data(void *data, int nbytes) {
-- 
2.43.0


From 35c90c87d3cf5e98d20534d143016c7814e80c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:22 +0000
Subject: [PATCH 04/13] fix: random_data_unaligned consumed an
 alignment-dependent number of blocks

---
 emp-tool/utils/prg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/prg.h b/emp-tool/utils/prg.h
index 5e64ca7..3d3a37d 100644
--- a/emp-tool/utils/prg.h
+++ b/emp-tool/utils/prg.h
@@ -104,7 +104,7 @@ class PRG { public:
             }
         } else {
             block tmp[2];
-            random_block(tmp, 2);
+            random_block(tmp, (nbytes + (int)sizeof(block) - 1) / (int)sizeof(block));
             memcpy(data, tmp, nbytes);
         }
     }
-- 
2.43.0


From 2cb7497d7fd7eec21cb8ae6366c7230c23c9b8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:22 +0000
Subject: [PATCH 05/13] fix: wire format of send_bool/recv_bool depended on
 each side's buffer alignment

---
 emp-tool/io/io_channel.h | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/emp-tool/io/io_channel.h b/emp-tool/io/io_channel.h
index 66d7750..bc71400 100644
--- a/emp-tool/io/io_channel.h
+++ b/emp-tool/io/io_channel.h
@@ -51,29 +51,11 @@ class IOChannel { public:
 	}	
 
 	void send_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		const void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			send_data(data, length);
-		else{
-			size_t diff = length - space;
-			send_data(data, diff);
-			send_bool_aligned((const bool*)aligned, length - diff);
-		}
+		send_bool_aligned(data, length);
 	}
 
 	void recv_bool(bool * data, size_t length) {
-		void * ptr = (void *)data;
-		size_t space = length;
-		void * aligned = std::align(alignof(uint64_t), sizeof(uint64_t), ptr, space);
-		if(aligned == nullptr)
-			recv_data(data, length);
-		else{
-			size_t diff = length - space;
-			recv_data(data, diff);
-			recv_bool_aligned((bool*)aligned, length - diff);
-		}
+		recv_bool_aligned(data, length);
 	}
 
 
-- 
2.43.0


From abf52f1ee0884cbb8f26a0cbdb20c66c1f68d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:36 +0000
Subject: [PATCH 06/13] fix: MemIO::clear kept the old read position

---
 emp-tool/io/mem_io_channel.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/io/mem_io_channel.h b/emp-tool/io/mem_io_channel.h
index 48f1a00..aa61624 100644
--- a/emp-tool/io/mem_io_channel.h
+++ b/emp-tool/io/mem_io_channel.h
@@ -31,6 +31,7 @@ class MemIO: public IOChannel<MemIO> { public:
 	}
 	void clear() {
 		size = 0;
+		read_pos = 0;
 	}
 	void send_data_internal(const void * data, int64_t len) {
 		if(size + len >= cap){
-- 
2.43.0


From 7d2cb5f2038b7cfb0b26abaec9bc17facad18250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:36 +0000
Subject: [PATCH 07/13] fix: MITCCRH::hash read past the scheduled keys when
 call sizes are mixed

---
 emp-tool/utils/mitccrh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/utils/mitccrh.h b/emp-tool/utils/mitccrh.h
index 8164e85..0387765 100644
--- a/emp-tool/utils/mitccrh.h
+++ b/emp-tool/utils/mitccrh.h
@@ -45,7 +45,7 @@ class MITCCRH { public:
 	void hash(block * blks) {
 		assert(K <= BatchSize);
 		assert(BatchSize % K == 0);
-		if(key_used == BatchSize) renew_ks();
+		if(key_used + K > BatchSize) renew_ks();
 
 		block tmp[K*H];
 		for(int i = 0; i < K*H; ++i)
-- 
2.43.0


From be421c789d1781491eba7c80ea3bf8a74122a522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:36 +0000
Subject: [PATCH 08/13] fix: half-gates num_and counted keys of the whole
 prefetched batch

---
 emp-tool/gc/halfgate_eva.h | 2 +-
 emp-tool/gc/halfgate_gen.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/emp-tool/gc/halfgate_eva.h b/emp-tool/gc/halfgate_eva.h
index e79dfcb..cd8df3f 100644
--- a/emp-tool/gc/halfgate_eva.h
+++ b/emp-tool/gc/halfgate_eva.h
@@ -58,7 +58,7 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		return (mitccrh.gid - (8 - mitccrh.key_used))/2;
 	}
 };
 }
diff --git a/emp-tool/gc/halfgate_gen.h b/emp-tool/gc/halfgate_gen.h
index 7f8837d..e672509 100644
--- a/emp-tool/gc/halfgate_gen.h
+++ b/emp-tool/gc/halfgate_gen.h
@@ -76,7 +76,7 @@ public:
 		return xor_gate(a, public_label(true));
 	}
 	uint64_t num_and() override {
-		return mitccrh.gid/2;
+		return (mitccrh.gid - (8 - mitccrh.key_used))/2;
 	}
 };
 }
-- 
2.43.0


From 7285aadee8d30d3e84d55bcfeda16ac2685bb813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:18 +0000
Subject: [PATCH 09/13] fix: HighSpeedNetIO flush padded from beyond its buffer

---
 emp-tool/io/highspeed_net_io_channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/io/highspeed_net_io_channel.h b/emp-tool/io/highspeed_net_io_channel.h
index 4400bad..89c382b 100644
--- a/emp-tool/io/highspeed_net_io_channel.h
+++ b/emp-tool/io/highspeed_net_io_channel.h
@@ -49,7 +49,7 @@ class SenderSubChannel : public SubChannel { public:
 		flushes++;
 		send_data_raw(buf, ptr);
 		if (counter % NETWORK_BUFFER_SIZE2 != 0)
-			send_data_raw(buf + ptr, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
+			send_data_raw(buf, NETWORK_BUFFER_SIZE2 - counter % NETWORK_BUFFER_SIZE2);
 		fflush(stream);
 		ptr = 0;
 	}
-- 
2.43.0


From d635ee965c27ccbbbfadd75b6403856b28722bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:18 +0000
Subject: [PATCH 10/13] fix: exported circuit read wire 0 for outputs that are
 public constants

---
 emp-tool/execution/plain_prot.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/emp-tool/execution/plain_prot.h b/emp-tool/execution/plain_prot.h
index 2330915..6118041 100644
--- a/emp-tool/execution/plain_prot.h
+++ b/emp-tool/execution/plain_prot.h
@@ -46,7 +46,10 @@ public:
 	void reveal(bool* b, int party, const block * label, int length) override {
 		for (int i = 0; i < length; ++i) {
 			uint64_t *arr = (uint64_t*) (&label[i]);
-			output_vec.push_back(arr[1]);
+			if (cast_circ_exec->is_public(label[i], PUBLIC)) // constants have no wire: -1 is zero, -2 is one
+				output_vec.push_back(cast_circ_exec->get_value(label[i]) ? -2 : -1);
+			else
+				output_vec.push_back(arr[1]);
 			b[i] = cast_circ_exec->get_value(label[i]);
 		}
 		n3+=length;
@@ -64,7 +67,10 @@ inline void finalize_plain_prot () {
 	int64_t z_index = cast_circ_exec->gid++;
 	cast_circ_exec->fout<<2<<" "<<1<<" "<<0<<" "<<0<<" "<<z_index<<" XOR"<<endl;
 	for (auto v : cast_prot_exec->output_vec) {
-		cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<v<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
+		if (v == -2)
+			cast_circ_exec->fout<<1<<" "<<1<<" "<<z_index<<" "<<cast_circ_exec->gid++<<" INV"<<endl;
+		else
+			cast_circ_exec->fout<<2<<" "<<1<<" "<<z_index<<" "<<(v == -1 ? z_index : v)<<" "<<cast_circ_exec->gid++<<" XOR"<<endl;
 	}
 	cast_circ_exec->gates += (1+cast_prot_exec->output_vec.size());
 	cast_circ_exec->finalize();
-- 
2.43.0


From bfeafc9629160ed9aa52ad25047bbdb4b4a4250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:39 +0000
Subject: [PATCH 11/13] fix: AES-CTR start chunk lost the carry out of the low
 64 counter bits

---
 emp-tool/circuits/aes_128_ctr.h | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/emp-tool/circuits/aes_128_ctr.h b/emp-tool/circuits/aes_128_ctr.h
index 6a1f278..00380d6 100644
--- a/emp-tool/circuits/aes_128_ctr.h
+++ b/emp-tool/circuits/aes_128_ctr.h
@@ -23,6 +23,17 @@ extern unsigned char emp_tool_circuits_files_bristol_fashion_aes_128_txt[];
 
 namespace emp {
 
+// Add chunks to a counter block, which is a 128-bit big-endian number.
+inline void aes_128_ctr_advance(__m128i & counter, const uint64_t chunks) {
+	uint64_t rest = chunks;
+	for(size_t i = 0; i < 16; ++i) {
+		uint8_t * byte = ((uint8_t *)(&counter)) + (15 - i);
+		const unsigned int sum = ((unsigned int) *byte) + (unsigned int)(rest & 0xff);
+		*byte = (uint8_t) sum;
+		rest = (rest >> 8) + (sum >> 8);
+	}
+}
+
 // Calculate the AES_128_CTR encryption of some bytes
 // (length refers to the number of elements of type T in the array "input").
 template<typename T>
@@ -35,14 +46,7 @@ int aes_128_ctr(const __m128i key,
 	const size_t num_bytes = (input == nullptr) ? length : (length * sizeof(T));
 	__m128i counter = iv;
 	if (start_chunk != 0) { // increment iv, but it's big-endian, so it's funky
-		uint64_t count;
-		for(size_t i = 0; i < 8; ++i) {
-			((uint8_t *)(&count))[i] = ((uint8_t *)(&counter))[15 - i];
-		}
-		count += start_chunk;
-		for(size_t i = 0; i < 8; ++i) {
-			((uint8_t *)(&counter))[15 - i] = ((uint8_t *)(&count))[i];
-		}
+		aes_128_ctr_advance(counter, start_chunk);
 	}
 	if (input == nullptr && output == nullptr) {
 		std::cerr << "input and output of aes_128_ctr can't both be null pointers\n"<<std::flush;
@@ -209,16 +213,9 @@ class AES_128_CTR_Calculator { public:
 
 		int answer;
 		__m128i counter = iv;
-		uint64_t count;
-		for(size_t j = 0; j < 8; ++j) {
-			((uint8_t *)(&count))[j] = ((uint8_t *)(&counter))[15 - j];
-		}
-		count += start_chunk;
+		aes_128_ctr_advance(counter, start_chunk);
 
 		for (uint64_t i = 0; (128 * i) < length; ++i) {
-			for(size_t j = 0; j < 8; ++j) {
-				((uint8_t *)(&counter))[15 - j] = ((uint8_t *)(&count))[j];
-			}
 			answer = this->aes_128_ctr(nullptr,
 					&(emp::Integer(128, &counter, party).bits[0].bit),
 					(input == nullptr ) ? nullptr : &(input[ 128 * i]),
@@ -229,7 +226,7 @@ class AES_128_CTR_Calculator { public:
 			if (answer != 0) {
 				return answer;
 			}
-			++count;
+			aes_128_ctr_advance(counter, 1);
 		}
 
 		return 0;
-- 
2.43.0


From 7235af16912711bf42255b582a1937fd3357a6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:47 +0000
Subject: [PATCH 12/13] fix: privacy-free evaluation uses the whole 128-bit
 garbled row, not its low half broadcast

---
 emp-tool/gc/privacy_free_eva.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emp-tool/gc/privacy_free_eva.h b/emp-tool/gc/privacy_free_eva.h
index e239b3e..fce9e2e 100644
--- a/emp-tool/gc/privacy_free_eva.h
+++ b/emp-tool/gc/privacy_free_eva.h
@@ -27,7 +27,7 @@ inline block privacy_free_eval(block A, block B, const block &table, uint64_t id
 	}
 	if (sa) {
 		*((char *) &HA) |= 0x01;
-		W = HA ^ table[0];
+		W = HA ^ table;
 		W = W ^ B;
 	} else {
 		*((char *) &HA) &= 0xfe;
-- 
2.43.0


From a883d21b456d3e45c05807ed2fdeda19ecec9529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:03 +0000
Subject: [PATCH 13/13] fix: BristolFashion::from_file added the widths of a
 previously loaded circuit

---
 emp-tool/circuits/circuit_file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emp-tool/circuits/circuit_file.h b/emp-tool/circuits/circuit_file.h
index 6159ac0..71ec9f3 100644
--- a/emp-tool/circuits/circuit_file.h
+++ b/emp-tool/circuits/circuit_file.h
@@ -146,6 +146,7 @@ class BristolFashion { public:
 		int tmp;
 		(void)fscanf(f, "%d%d\n", &num_gate, &num_wire);
 		int niov = 0;
+		num_input = num_output = 0;
 		(void)fscanf(f, "%d", &niov);
 		for(int i = 0; i < niov; ++i) {
 			(void)fscanf(f, "%d", &tmp);
-- 
2.43.0

