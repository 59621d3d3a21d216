From 132df2aea4a24fefa3c4300f9e9fdc3b467cdd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 01/49] fix: Reducer returns the canonical representative when
 |b| == a

---
 src/Reducer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Reducer.h b/src/Reducer.h
index 9fa7b5b..5f5fe5b 100644
--- a/src/Reducer.h
+++ b/src/Reducer.h
@@ -172,7 +172,10 @@ bool bLZCHasHW=false;
     if (a_c > 0) {
       mpz_swap(ctx.a, ctx.c);
       mpz_neg(ctx.b, ctx.b);
-    } else if (a_c == 0 && mpz_sgn(ctx.b) < 0) {
+      a_b = c_b;
+    }
+    // The reduced representative has b >= 0 when |b| == a or a == c.
+    if ((a_b == 0 || a_c == 0) && mpz_sgn(ctx.b) < 0) {
       mpz_neg(ctx.b, ctx.b);
     }
     return true;
-- 
2.43.0


From 27af10409398109d9e28d2d98dbf919fb5f41b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:35 +0000
Subject: [PATCH 02/49] fix: HashPrime no longer loops forever when a short
 seed has no prime candidate

---
 src/proof_common.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proof_common.h b/src/proof_common.h
index 5cf32c8..2735a7c 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -40,6 +40,10 @@ integer HashPrime(std::vector<uint8_t> seed, int length, vector<int> bitmask) {
         p.set_bit(0, true);
         if (p.prime())
             return p;
+        // A short seed has few distinct candidates: once the counter is back
+        // at the seed the same candidates would repeat forever.
+        if (sprout == seed)
+            throw std::runtime_error("No prime can be derived from the seed");
     }
 }
 
-- 
2.43.0


From e2c2328aa364786d43d8b06c656535d892f71c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 03/49] fix: strict form deserialization accepts only canonical
 encodings of reduced forms

---
 src/bqfc.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/bqfc.c b/src/bqfc.c
index 1e164fe..cbd2a97 100644
--- a/src/bqfc.c
+++ b/src/bqfc.c
@@ -307,6 +307,31 @@ static int bqfc_verify_canon(mpz_t a, mpz_t b, const uint8_t *str, size_t d_bits
     return memcmp(canon_str, str, BQFC_FORM_SIZE);
 }
 
+/* Whether (a, b) is the reduced representative of a class of discriminant D. */
+static bool bqfc_is_reduced(const mpz_t a, const mpz_t b, const mpz_t D)
+{
+    bool ret = false;
+    int b_a, a_c;
+    mpz_t c, four_a;
+
+    if (mpz_sgn(a) <= 0)
+        return false;
+
+    mpz_inits(c, four_a, NULL);
+    mpz_mul(c, b, b);
+    mpz_sub(c, c, D);
+    mpz_mul_2exp(four_a, a, 2);
+    if (mpz_divisible_p(c, four_a)) {
+        mpz_divexact(c, c, four_a);
+        b_a = mpz_cmpabs(b, a);
+        a_c = mpz_cmp(a, c);
+        ret = b_a <= 0 && a_c <= 0 &&
+              (mpz_sgn(b) >= 0 || (b_a != 0 && a_c != 0));
+    }
+    mpz_clears(c, four_a, NULL);
+    return ret;
+}
+
 int bqfc_deserialize(mpz_t out_a, mpz_t out_b, const mpz_t D, const uint8_t *str,
                      size_t size, size_t d_bits, bool strict)
 {
@@ -323,6 +348,9 @@ int bqfc_deserialize(mpz_t out_a, mpz_t out_b, const mpz_t D, const uint8_t *str
     if (str[0] & (BQFC_IS_1 | BQFC_IS_GEN)) {
         mpz_set_ui(out_a, str[0] & BQFC_IS_GEN ? 2 : 1);
         mpz_set_ui(out_b, 1);
+        if (strict && (bqfc_verify_canon(out_a, out_b, str, d_bits) ||
+                       !bqfc_is_reduced(out_a, out_b, D)))
+            return -1;
         return 0;
     }
 
@@ -336,6 +364,8 @@ int bqfc_deserialize(mpz_t out_a, mpz_t out_b, const mpz_t D, const uint8_t *str
         goto out;
 
     ret = bqfc_verify_canon(out_a, out_b, str, d_bits);
+    if (!ret && strict && !bqfc_is_reduced(out_a, out_b, D))
+        ret = -1;
 out:
     mpz_clears(f_c.a, f_c.t, f_c.g, f_c.b0, NULL);
     return ret;
-- 
2.43.0


From cab4aba7cfee9d1c2e5fa65a584182e6057378c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:54 +0000
Subject: [PATCH 04/49] fix: ApproximateParameters no longer throws for one or
 two iterations

---
 src/util.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util.h b/src/util.h
index 352244d..c1e6764 100644
--- a/src/util.h
+++ b/src/util.h
@@ -143,6 +143,12 @@ void ApproximateParameters(uint64_t T, uint32_t& L, uint32_t& K) {
         L = checked_double_to_u32(l_estimate);
     }
     double intermediate = T * (double)0.6931471 / (2.0 * L);
+    if (intermediate <= 1.0) {
+        // For tiny iteration counts, the asymptotic estimate is undefined
+        // (log(log(intermediate)) domain). Keep parameters minimal and valid.
+        K = 1;
+        return;
+    }
     const double k_estimate = std::max(std::round(log(intermediate) - log(log(intermediate)) + 0.25), 1.0);
     K = checked_double_to_u32(k_estimate);
 }
-- 
2.43.0


From dfe0daa9dca88ceec00e4b463fc233459fa187b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 05/49] fix: verification rejects non-negative discriminants
 instead of aborting in root()

---
 src/verifier.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/verifier.h b/src/verifier.h
index 97690c9..ed315f7 100644
--- a/src/verifier.h
+++ b/src/verifier.h
@@ -18,6 +18,10 @@ inline bool IsDiscSizeBitsInRange(const uint64_t disc_size_bits)
 
 inline bool IsDiscriminantInRange(const integer& D)
 {
+    // Forms are defined for negative discriminants only.
+    if (mpz_sgn(D.impl) >= 0) {
+        return false;
+    }
     const int d_bits = D.num_bits();
     return d_bits > 0 && static_cast<uint64_t>(d_bits) <= static_cast<uint64_t>(BQFC_MAX_D_BITS);
 }
@@ -36,6 +40,10 @@ int VerifyWesoSegment(integer &D, form x, form proof, integer &B, uint64_t iters
 
 void VerifyWesolowskiProof(integer &D, form x, form y, form proof, uint64_t iters, bool &is_valid)
 {
+    if (mpz_sgn(D.impl) >= 0) {
+        is_valid = false;
+        return;
+    }
     PulmarkReducer reducer;
     integer L = root(-D, 4);
     integer B = GetB(D, x, y);
-- 
2.43.0


From 5358b766fe1e5879ff16e51cb96f62c5dca3bdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 06/49] fix: C interface reports null pointers and oversized
 discriminants as failures

---
 src/c_bindings/c_wrapper.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/c_bindings/c_wrapper.cpp b/src/c_bindings/c_wrapper.cpp
index 9ed7014..a22cd40 100644
--- a/src/c_bindings/c_wrapper.cpp
+++ b/src/c_bindings/c_wrapper.cpp
@@ -9,6 +9,9 @@ extern "C" {
     // C wrapper function
     bool create_discriminant_wrapper(const uint8_t* seed, size_t seed_size, size_t size_bits, uint8_t* result) {
         try {
+            if (result == nullptr || (seed == nullptr && seed_size != 0)) {
+                return false;
+            }
             std::vector<uint8_t> seed_vector(seed, seed + seed_size);
             integer discriminant = CreateDiscriminant(seed_vector, checked_cast<int>(size_bits));
             mpz_export(result, NULL, 1, 1, 0, 0, discriminant.impl);
@@ -20,6 +23,9 @@ extern "C" {
 
     ByteArray prove_wrapper(const uint8_t* challenge_hash, size_t challenge_size, const uint8_t* x_s, size_t x_s_size, size_t discriminant_size_bits, uint64_t num_iterations) {
         try {
+            if (x_s == nullptr || (challenge_hash == nullptr && challenge_size != 0)) {
+                return ByteArray { nullptr, 0 };
+            }
             std::vector<uint8_t> challenge_hash_bytes(challenge_hash, challenge_hash + challenge_size);
             integer discriminant = CreateDiscriminant(challenge_hash_bytes, checked_cast<int>(discriminant_size_bits));
             form x = DeserializeForm(discriminant, x_s, x_s_size);
@@ -37,6 +43,10 @@ extern "C" {
 
     bool verify_n_wesolowski_wrapper(const uint8_t* discriminant_bytes, size_t discriminant_size, const uint8_t* x_s, const uint8_t* proof_blob, size_t proof_blob_size, uint64_t num_iterations, uint64_t recursion) {
         try {
+            // Check the size before touching (or multiplying) anything derived from it.
+            if (discriminant_bytes == nullptr || discriminant_size > BQFC_MAX_D_BITS / 8) {
+                return false;
+            }
             integer discriminant;
             mpz_import(discriminant.impl, discriminant_size, 1, 1, 0, 0, discriminant_bytes);
 
-- 
2.43.0


From 3cb254cd33da5dde553d327e35caf212b001410e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:55 +0000
Subject: [PATCH 07/49] fix: to_string_dec reserves room for the sign

---
 src/integer_common.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/integer_common.h b/src/integer_common.h
index 73a0525..16096a8 100644
--- a/src/integer_common.h
+++ b/src/integer_common.h
@@ -263,7 +263,8 @@ struct integer {
 
     string to_string_dec() const {
         string res_string;
-        res_string.resize(mpz_sizeinbase(impl, 10));
+        //room for the sign and the null terminator
+        res_string.resize(mpz_sizeinbase(impl, 10) + 2);
 
         mpz_get_str(&(res_string[0]), 10, impl);
 
-- 
2.43.0


From f76ca2655c6606cde886fb2d9406f38994d85ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:20 +0000
Subject: [PATCH 08/49] fix: DeserializeForm refuses non-negative discriminants
 instead of dividing by zero

---
 src/proof_common.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/proof_common.h b/src/proof_common.h
index 2735a7c..76f987a 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -58,6 +58,10 @@ std::vector<unsigned char> SerializeForm(form &y, int d_bits)
 form DeserializeForm(const integer &D, const uint8_t *bytes, size_t size,
                      bool strict = false)
 {
+    if (mpz_sgn(D.impl) >= 0) {
+        // There are no positive definite forms to reduce.
+        throw std::runtime_error("Discriminant is not negative");
+    }
     integer a, b;
     if (bqfc_deserialize(a.impl, b.impl, D.impl, bytes, size, D.num_bits(), strict)) {
         throw std::runtime_error("Deserializing compressed form failed");
-- 
2.43.0


From 812811f519d62f859bcbc0a6d86790970dc9230e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:37 +0000
Subject: [PATCH 09/49] fix: session header size must be three decimal digits

---
 src/vdf_client_session.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vdf_client_session.h b/src/vdf_client_session.h
index 99eeac1..295ae9f 100644
--- a/src/vdf_client_session.h
+++ b/src/vdf_client_session.h
@@ -28,6 +28,11 @@ inline void InitSession(boost::asio::ip::tcp::socket& sock) {
 
     boost::asio::read(sock, boost::asio::buffer(disc_size, 3), error);
     check_read_error("discriminant size");
+    for (int i = 0; i < 3; i++) {
+        if (disc_size[i] < '0' || disc_size[i] > '9') {
+            throw std::runtime_error("Discriminant size must be decimal digits");
+        }
+    }
     disc_int_size = atoi(disc_size);
     if (disc_int_size <= 0 || disc_int_size >= (int)sizeof(disc)) {
         throw std::runtime_error("Invalid discriminant size");
-- 
2.43.0


From ab774b077d9e2a120d0e01dfa9b94f128b6b132e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:19 +0000
Subject: [PATCH 10/49] fix: FastAlgorithmCallback refuses iterations beyond
 its checkpoint table

---
 src/callback.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/callback.h b/src/callback.h
index f4764bb..4cb5dc3 100644
--- a/src/callback.h
+++ b/src/callback.h
@@ -275,7 +275,7 @@ class FastAlgorithmCallback : public WesolowskiCallback {
         }
         forms_capacity = static_cast<size_t>(total_forms);
         forms.reset(new form[forms_capacity]);
-        checkpoints.reset(new form[1 << 18]);
+        checkpoints.reset(new form[checkpoints_capacity]);
 
         y_ret = f;
         for (int i = 0; i < segments; i++)
@@ -321,7 +321,11 @@ class FastAlgorithmCallback : public WesolowskiCallback {
         }
 
         if (iteration % (1 << 16) == 0) {
-            form* mulf = (&checkpoints[(iteration / (1 << 16))]);
+            const uint64_t pos = iteration / (1 << 16);
+            if (pos >= checkpoints_capacity) {
+                throw std::runtime_error("FastAlgorithmCallback::OnIteration out of bounds");
+            }
+            form* mulf = &checkpoints[pos];
             SetForm(type, data, mulf);
         }
     }
@@ -336,6 +340,8 @@ class FastAlgorithmCallback : public WesolowskiCallback {
     const int bucket_size2 = 21846;
     // Assume provers won't be left behind by more than this # of segments.
     const int window_size = kWindowSize;
+    // One checkpoint per 2^16 iterations, up to 2^34 iterations.
+    static const size_t checkpoints_capacity = 1 << 18;
     bool multi_proc_machine;
 };
 
-- 
2.43.0


From ec9b30a51a5b9fc16b41bccbe27f23e62175c98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:01 +0000
Subject: [PATCH 11/49] fix: reject hardware readings with a non-positive a or
 a count past the end

---
 src/hw/hw_proof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index c6e1bec..a9c2536 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -42,7 +42,8 @@ int hw_proof_add_value(struct vdf_state *vdf, struct vdf_value *val)
     }
     vdf->n_skipped = 0;
 
-    if (mpz_sgn(val->a) == 0) {
+    // A corrupted reading may carry a non-positive a or a count past the end
+    if (mpz_sgn(val->a) <= 0 || val->iters > vdf->target_iters) {
         report_bad_vdf_value(vdf, val);
         return -1;
     }
-- 
2.43.0


From 57d8f8ff2b69324a6adb345a8bcb1b1831fdb0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:01 +0000
Subject: [PATCH 12/49] fix: keep serving queued proofs and values after the
 hardware run has completed

---
 src/hw/hw_proof.hpp      | 1 +
 src/hw/hw_vdf_client.cpp | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/src/hw/hw_proof.hpp b/src/hw/hw_proof.hpp
index 3668413..7eadfaa 100644
--- a/src/hw/hw_proof.hpp
+++ b/src/hw/hw_proof.hpp
@@ -92,6 +92,7 @@ struct vdf_state {
 
 int hw_proof_add_value(struct vdf_state *vdf, struct vdf_value *val);
 form *hw_proof_last_good_form(struct vdf_state *vdf, size_t *out_pos);
+void hw_proof_process_work(struct vdf_state *vdf);
 void hw_proof_handle_value(struct vdf_state *vdf, struct vdf_value *val);
 void hw_stop_proof(struct vdf_state *vdf);
 void hw_request_proof(struct vdf_state *vdf, uint64_t iters, bool is_chkp);
diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 73cefc5..5f17f2b 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -386,6 +386,10 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
         conn->buf_pos = 0;
         LOG_INFO("VDF %d: Received challenge, running", vdf->idx);
     } else if (conn->state == RUNNING || conn->state == IDLING) {
+        if (conn->state == IDLING) {
+            // No more readings will come, keep serving the queued work
+            hw_proof_process_work(vdf);
+        }
         handle_proofs(client, conn);
         bytes = read_data(client, conn);
         if (bytes <= 0) {
-- 
2.43.0


From 1d917992d0ee99f48822809817b6911731acaf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:00 +0000
Subject: [PATCH 13/49] fix: do not lose the stop notification of a waiting
 proof request

A request that had seen `stopped` unset but was not waiting yet missed the
only notification and waited forever.
---
 src/vdf.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/vdf.h b/src/vdf.h
index 3cfe197..9682fee 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -469,7 +469,15 @@ class ProverManager {
         }
         std::cout << "Segment provers finished.\n" << std::flush;
 
+        // The waiters check `stopped` under these mutexes: a notification sent
+        // between their check and their wait would be lost.
+        {
+            std::lock_guard<std::mutex> lk(proof_mutex);
+        }
         proof_cv.notify_all();
+        {
+            std::lock_guard<std::mutex> lk(last_segment_mutex);
+        }
         last_segment_cv.notify_all();
     }
 
-- 
2.43.0


From 398ecfe15cd92df5a3036e898541d128d452324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:00 +0000
Subject: [PATCH 14/49] fix: an interrupted proof request returns an empty
 proof

A stop arriving before the segments were collected left the loop with only
the last segment, which was then returned as the proof (or, without a last
segment, indexed an empty vector).
---
 src/vdf.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vdf.h b/src/vdf.h
index 9682fee..69579c8 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -573,6 +573,9 @@ class ProverManager {
                 valid_proof = true;
             }
         }
+        if (!valid_proof) {
+            return Proof();
+        }
         if (!last_segment.is_empty) {
             proof_segments.emplace_back(last_segment);
         }
-- 
2.43.0


From 2213a9d88bdf6ccf5a215cea39a16ee31d501b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:00 +0000
Subject: [PATCH 15/49] fix: two proof requests within one segment do not lose
 a wakeup

Both shared one entry of pending_iters_last_sg; when one of them passed
before the event loop looked, the other was never notified.
---
 src/vdf.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vdf.h b/src/vdf.h
index 69579c8..d40bfde 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -502,7 +502,8 @@ class ProverManager {
             if (stopped) {
                 return Proof();
             }
-            pending_iters_last_sg.erase(iteration - iteration % (1 << 16));
+            // Other requests may wait for the same segment: remove only this one.
+            pending_iters_last_sg.erase(pending_iters_last_sg.find(iteration - iteration % (1 << 16)));
             lk.unlock();
         }
         Segment last_segment;
@@ -839,7 +840,7 @@ class ProverManager {
     // Iterations that we need proof for.
     std::set<uint64_t> pending_iters;
     // Last segment beginning for our pending iters.
-    std::set<uint64_t> pending_iters_last_sg;
+    std::multiset<uint64_t> pending_iters_last_sg;
     // Protect pending_iters and done_segments.
     std::mutex proof_mutex;
     std::mutex last_segment_mutex;
-- 
2.43.0


From d153d9bbf16caf314098c80b93cc626157b7107e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:10 +0000
Subject: [PATCH 16/49] fix: do not prove a segment before its end checkpoint
 is stored

With background storage a segment counts as finished once its intermediates
are recomputed, which can happen before the VDF thread has reached the end of
the segment; the prover then started from an unset checkpoint.
---
 src/vdf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index d40bfde..512f08b 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -716,7 +716,9 @@ class ProverManager {
             }
 
             if (fast_storage != NULL) {
-                intermediates_iter = fast_storage -> GetFinishedSegment();
+                // The storage threads may be done with a segment before the VDF
+                // thread has stored the checkpoint at its end.
+                intermediates_iter = std::min<uint64_t>(fast_storage -> GetFinishedSegment(), vdf_iteration);
             } else {
                 intermediates_iter = vdf_iteration;
             }
-- 
2.43.0


From 8a4df2311b4608dacb2cbbb0bd61c40b209e7ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:39 +0000
Subject: [PATCH 17/49] fix: synchronise the finished flags of the background
 storage

intermediates_stored was written by the storage threads and read by the event
loop without any ordering, so a segment could be seen as finished before its
intermediates were visible; stopped was read unlocked as well.
---
 src/fast_storage.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fast_storage.h b/src/fast_storage.h
index ebedf79..7c8e5b7 100644
--- a/src/fast_storage.h
+++ b/src/fast_storage.h
@@ -10,6 +10,7 @@
 #define FAST_STORAGE_H
 
 #include "vdf_new.h"
+#include <atomic>
 
 extern bool new_event;
 extern std::mutex new_event_mutex;
@@ -49,6 +50,7 @@ class FastStorage {
             subbucket = 1;
         bool has_event = false;
         {
+            std::lock_guard<std::mutex> lk(stored_mutex);
             intermediates_stored[2 * bucket + subbucket] = true;
             if (intermediates_stored[2 * bucket] == true &&
                 intermediates_stored[2 * bucket + 1] == true)
@@ -93,6 +95,7 @@ class FastStorage {
     }
 
     uint64_t GetFinishedSegment() {
+        std::lock_guard<std::mutex> lk(stored_mutex);
         while (intermediates_stored[2 * (intermediates_iter / (1 << 16))] == true &&
                intermediates_stored[2 * (intermediates_iter / (1 << 16)) + 1] == true) {
                     intermediates_iter += (1 << 16);
@@ -122,10 +125,12 @@ class FastStorage {
     std::vector<std::thread> storage_threads;
     FastAlgorithmCallback* weso;
     bool* intermediates_stored;
-    bool stopped;
+    std::atomic<bool> stopped;
     std::map<uint64_t, form> pending_intermediates;
     int intermediates_threads = 6;
     std::mutex intermediates_mutex;
+    // Protects intermediates_stored.
+    std::mutex stored_mutex;
     std::condition_variable intermediates_cv;
     uint64_t intermediates_iter = 0;
 };
-- 
2.43.0


From 49a8b6057071306d021375103bcf7acb7798799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:32 +0000
Subject: [PATCH 18/49] fix: do not use a segment that has not been proven yet

---
 src/vdf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index 512f08b..e232cd4 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -552,7 +552,9 @@ class ProverManager {
             for (int i = segment_count - 1; i >= 0; i--) {
                 uint64_t segment_size = (1LL << (16 + 2 * i));
                 uint64_t position = proved_iters / segment_size;
-                while (position < done_segments[i].size() && proved_iters + segment_size <= iteration) {
+                // Segments can finish out of order, leaving empty ones before the last.
+                while (position < done_segments[i].size() && !done_segments[i][position].is_empty &&
+                       proved_iters + segment_size <= iteration) {
                     proof_segments.emplace_back(done_segments[i][position]);
                     position++;
                     proved_iters += segment_size;
-- 
2.43.0


From 795fbc15981a98a09795090bc6c34a5f2867b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:33 +0000
Subject: [PATCH 19/49] fix: report an even root of a negative number instead
 of raising SIGFPE

---
 src/integer_common.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/integer_common.h b/src/integer_common.h
index 16096a8..8ce1a50 100644
--- a/src/integer_common.h
+++ b/src/integer_common.h
@@ -430,6 +430,10 @@ integer abs(const integer& t) {
 }
 
 integer root(const integer& t, int n) {
+    if (n % 2 == 0 && mpz_sgn(t.impl) < 0) {
+        // GMP raises SIGFPE in this case.
+        throw std::domain_error("even root of a negative number");
+    }
     integer res;
     mpz_root(res.impl, t.impl, n);
     return res;
-- 
2.43.0


From 2f522d2d1fbef543da7c4c7fd93934a351789575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:33 +0000
Subject: [PATCH 20/49] fix: do not wait forever for a one-wesolowski prover
 that was stopped

---
 src/vdf.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index e232cd4..cb98f2f 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -329,9 +329,12 @@ Proof ProveOneWesolowski(uint64_t iters, integer& D, form f, OneWesolowskiCallba
     );
     OneWesolowskiProver prover(sg, D, weso->forms.get(), stopped);
     prover.start();
-    while (!prover.IsFinished()) {
+    // A prover stopped while generating the proof never finishes.
+    while (!stopped && !prover.IsFinished()) {
         this_thread::sleep_for(1s);
     }
+    if (stopped)
+        return Proof();
     int d_bits = D.num_bits();
     std::vector<unsigned char> y_serialized;
     std::vector<unsigned char> proof_serialized;
-- 
2.43.0


From 50bfa8b3ca9aafde576b6ec8937e774c9b5a9c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:33 +0000
Subject: [PATCH 21/49] fix: a two-wesolowski session writes past its stop
 flags after a hundred proving threads

---
 src/vdf_client.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 58dc0af..e490a20 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -3,6 +3,7 @@
 #include "version.hpp"
 #include "vdf_client_session.h"
 #include <atomic>
+#include <deque>
 
 using boost::asio::ip::tcp;
 
@@ -252,7 +253,8 @@ void SessionTwoWeso(tcp::socket& sock) {
         boost::asio::write(sock, boost::asio::buffer("OK", 2));
 
         std::atomic<bool> stopped(false);
-        std::atomic<bool> stop_vector[100];
+        // One flag per proving thread; a deque keeps references to its elements valid.
+        std::deque<std::atomic<bool>> stop_vector;
         std::vector<std::thread> threads;
         // (iteration, thread_id)
         std::set<std::pair<uint64_t, uint64_t> > seen_iterations;
@@ -301,9 +303,9 @@ void SessionTwoWeso(tcp::socket& sock) {
                 if (threads.size() < kMaxProcessesAllowed || iters < min_iter) {
                     seen_iterations.insert({iters, threads.size()});
                     PrintInfo("Running proving for iter: " + to_string(iters));
-                    stop_vector[threads.size()] = false;
+                    stop_vector.emplace_back(false);
                     threads.push_back(std::thread(CreateAndWriteProofTwoWeso, std::ref(D), f, iters,
-                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector[threads.size()]),
+                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector.back()),
                                       std::ref(sock)));
                     if (threads.size() > kMaxProcessesAllowed) {
                         PrintInfo("Stopping proving for iter: " + to_string(max_iter));
-- 
2.43.0


From 6453c08c9fd7191ec4a916d07a237fd63fdcee61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:33 +0000
Subject: [PATCH 22/49] fix: a two-wesolowski session accepts iterations it can
 never reach

---
 src/vdf_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index e490a20..fa6c7dd 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -296,7 +296,7 @@ void SessionTwoWeso(tcp::socket& sock) {
                     PrintInfo("Duplicate iteration " + to_string(iters) + "... Ignoring.");
                     continue;
                 }
-                if (iters >= kMaxProcessesAllowed - 500000) {
+                if (iters >= kMaxItersAllowed - 500000) {
                     PrintInfo("Too big iter... ignoring");
                     continue;
                 }
-- 
2.43.0


From 0b1d4da98841624985a4dbd15810e89df717a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 23/49] fix: a socket error or malformed request terminates the
 client while its threads run

---
 src/vdf_client.cpp | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index fa6c7dd..75474cc 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -52,31 +52,37 @@ void WriteProof(uint64_t iteration, Proof& result, tcp::socket& sock) {
     PrintInfo("Sent proof");
 }
 
-void CreateAndWriteProof(ProverManager& pm, uint64_t iteration, std::atomic<bool>& stop_signal, tcp::socket& sock) {
+void CreateAndWriteProof(ProverManager& pm, uint64_t iteration, std::atomic<bool>& stop_signal, tcp::socket& sock) try {
     Proof result = pm.Prove(iteration);
     if (stop_signal == true) {
         PrintInfo("Got stop signal before completing the proof!");
         return ;
     }
     WriteProof(iteration, result, sock);
+} catch (std::exception& e) {
+    PrintInfo("Exception in proof thread: " + to_string(e.what()));
 }
 
-void CreateAndWriteProofOneWeso(uint64_t iters, integer& D, form f, OneWesolowskiCallback* weso, std::atomic<bool>& stop_signal, tcp::socket& sock) {
+void CreateAndWriteProofOneWeso(uint64_t iters, integer& D, form f, OneWesolowskiCallback* weso, std::atomic<bool>& stop_signal, tcp::socket& sock) try {
     Proof result = ProveOneWesolowski(iters, D, f, weso, stop_signal);
     if (stop_signal) {
         PrintInfo("Got stop signal before completing the proof!");
         return ;
     }
     WriteProof(iters, result, sock);
+} catch (std::exception& e) {
+    PrintInfo("Exception in proof thread: " + to_string(e.what()));
 }
 
-void CreateAndWriteProofTwoWeso(integer& D, form f, uint64_t iters, TwoWesolowskiCallback* weso, std::atomic<bool>& stop_signal, tcp::socket& sock) {
+void CreateAndWriteProofTwoWeso(integer& D, form f, uint64_t iters, TwoWesolowskiCallback* weso, std::atomic<bool>& stop_signal, tcp::socket& sock) try {
     Proof result = ProveTwoWeso(D, f, iters, 0, weso, 0, stop_signal);
     if (stop_signal) {
         PrintInfo("Got stop signal before completing the proof!");
         return ;
     }
     WriteProof(iters, result, sock);
+} catch (std::exception& e) {
+    PrintInfo("Exception in proof thread: " + to_string(e.what()));
 }
 
 void ConfigureSessionRuntime() {
@@ -154,6 +160,16 @@ uint64_t ReadIteration(tcp::socket& sock) {
     return iters;
 }
 
+// Once threads are running, an unreadable request ends the session like a stop.
+uint64_t ReadIterationOrStop(tcp::socket& sock) {
+    try {
+        return ReadIteration(sock);
+    } catch (std::exception& e) {
+        PrintInfo("Exception while reading an iteration: " + to_string(e.what()));
+        return 0;
+    }
+}
+
 void SessionFastAlgorithm(tcp::socket& sock) {
     InitSession(sock);
     ConfigureSessionRuntime();
@@ -171,15 +187,15 @@ void SessionFastAlgorithm(tcp::socket& sock) {
             fast_storage = new FastStorage((FastAlgorithmCallback*)weso);
         }
         std::atomic<bool> stopped(false);
+        // Tell client that I'm ready to get the challenges. This can fail, so do it before starting threads.
+        boost::asio::write(sock, boost::asio::buffer("OK", 2));
+
         std::thread vdf_worker(repeated_square, 0, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
         ProverManager pm(D, (FastAlgorithmCallback*)weso, fast_storage, segments, thread_count);
         pm.start();
 
-        // Tell client that I'm ready to get the challenges.
-        boost::asio::write(sock, boost::asio::buffer("OK", 2));
-
         while (!stopped) {
-            uint64_t iters = ReadIteration(sock);
+            uint64_t iters = ReadIterationOrStop(sock);
             if (iters == 0) {
                 PrintInfo("Got stop signal!");
                 stopped = true;
@@ -224,10 +240,10 @@ void SessionOneWeso(tcp::socket& sock) {
         FastStorage* fast_storage = NULL;
         std::thread vdf_worker(repeated_square, iter, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
         std::thread th_prover(CreateAndWriteProofOneWeso, iter, std::ref(D), f, (OneWesolowskiCallback*)weso, std::ref(stopped), std::ref(sock));
-        iter = ReadIteration(sock);
+        iter = ReadIterationOrStop(sock);
         while (iter != 0) {
             std::cout << "Warning: did not receive stop signal\n";
-            iter = ReadIteration(sock);
+            iter = ReadIterationOrStop(sock);
         }
         stopped = true;
         vdf_worker.join();
@@ -263,7 +279,7 @@ void SessionTwoWeso(tcp::socket& sock) {
         std::thread vdf_worker(repeated_square, 0, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
 
         while (!stopped) {
-            uint64_t iters = ReadIteration(sock);
+            uint64_t iters = ReadIterationOrStop(sock);
             if (iters == 0) {
                 PrintInfo("Got stop signal!");
                 stopped = true;
-- 
2.43.0


From af4607914034610cdee993c52fadda3cb79b46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:45 +0000
Subject: [PATCH 24/49] fix: record intermediate values of the hardware client
 under their lock

Value workers, proof threads and the main loop read and grew the table of
recorded values and their flags without the lock, and a value recorded
twice (after a restart) could be replaced while a proof thread read it.
---
 src/hw/hw_proof.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index a9c2536..0e3afc9 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -102,6 +102,7 @@ static const size_t g_values_mult = 1UL << 12;
 
 form *hw_proof_value_at(struct vdf_state *vdf, size_t pos)
 {
+    std::lock_guard<std::mutex> lock(vdf->valid_values_mtx);
     size_t idx = pos / g_values_mult;
     size_t old_size = vdf->values.size();
 
@@ -117,24 +118,33 @@ form *hw_proof_value_at(struct vdf_state *vdf, size_t pos)
     return &vdf->values[idx][pos % g_values_mult];
 }
 
+bool hw_proof_value_valid(struct vdf_state *vdf, size_t pos)
+{
+    std::lock_guard<std::mutex> lock(vdf->valid_values_mtx);
+    return vdf->valid_values[pos / 8] & (1 << (pos % 8));
+}
+
 form *hw_proof_last_good_form(struct vdf_state *vdf, size_t *out_pos)
 {
     size_t pos = vdf->cur_iters / vdf->interval;
 
-    while (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+    while (!hw_proof_value_valid(vdf, pos)) {
         pos--;
     }
     *out_pos = pos;
     return hw_proof_value_at(vdf, pos);
 }
 
-void hw_proof_add_intermediate(struct vdf_state *vdf, struct vdf_value *val, size_t pos)
+void hw_proof_add_intermediate(struct vdf_state *vdf, form &f, size_t pos)
 {
-    if (val) {
-        hw_proof_get_form(hw_proof_value_at(vdf, pos), vdf, val);
-    }
+    form *dst = hw_proof_value_at(vdf, pos);
+
     vdf->valid_values_mtx.lock();
-    vdf->valid_values[pos / 8] |= 1 << (pos % 8);
+    // A recorded value may be in use by proof threads, never replace it
+    if (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+        *dst = f;
+        vdf->valid_values[pos / 8] |= 1 << (pos % 8);
+    }
     vdf->valid_values_mtx.unlock();
     vdf->done_values++;
 }
@@ -176,8 +186,7 @@ void hw_proof_calc_values(struct vdf_state *vdf, struct vdf_work *work, int thr_
                 abort();
             }
 
-            *hw_proof_value_at(vdf, pos) = f;
-            hw_proof_add_intermediate(vdf, NULL, pos);
+            hw_proof_add_intermediate(vdf, f, pos);
 
             next_iters += vdf->interval;
         }
@@ -494,7 +503,7 @@ void hw_proof_wait_values(struct vdf_state *vdf, bool finish_work)
 
 int hw_proof_wait_value(struct vdf_state *vdf, size_t pos)
 {
-    while (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+    while (!hw_proof_value_valid(vdf, pos)) {
         vdf_usleep(100000);
         if (vdf->stopping) {
             return -1;
@@ -520,7 +529,9 @@ void hw_proof_handle_value(struct vdf_state *vdf, struct vdf_value *val)
     bool print_stats = false;
 
     if (val->iters == end_iters) {
-        hw_proof_add_intermediate(vdf, val, val->iters / interval);
+        form f;
+        hw_proof_get_form(&f, vdf, val);
+        hw_proof_add_intermediate(vdf, f, val->iters / interval);
         if (end_iters) {
             end_iters -= interval;
         }
@@ -581,7 +592,7 @@ class HwProver : public ParallelProver {
         pos += pos_offset;
         if (hw_proof_wait_value(vdf, pos)) {
             // Provide arbitrary value when stopping - proof won't be computed
-            return vdf->values[0][0];
+            return *hw_proof_value_at(vdf, 0);
         }
         return *hw_proof_value_at(vdf, pos);
     }
-- 
2.43.0


From 7bfe63c7f206a15ad9e5a1f1b620b9fadd550a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:22 +0000
Subject: [PATCH 25/49] fix: take the proofs lock where the hardware client
 removes or retrieves proofs

Proof threads append to done_proofs and set flags under the lock while
the main loop scanned, resized and erased the same vectors without it.
---
 src/hw/hw_proof.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 0e3afc9..e0f0202 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -259,6 +259,7 @@ void hw_proof_inc_ref(struct vdf_state *vdf, uint16_t idx)
 
 void hw_proof_dec_ref(struct vdf_state *vdf, std::vector<uint16_t> &idxs)
 {
+    std::lock_guard<std::mutex> lock(vdf->proofs_resize_mtx);
     std::vector<uint16_t> proofs_to_del;
     int len = idxs.size();
     int last_proof_idx = vdf->proofs.size() - 1;
@@ -757,6 +758,7 @@ int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **out_proof)
         }
     }
 #endif
+    std::lock_guard<std::mutex> lock(vdf->proofs_resize_mtx);
     if (!vdf->done_proofs.empty()) {
         for (size_t i = 0; i < vdf->done_proofs.size(); i++) {
             uint16_t idx = vdf->done_proofs[i];
-- 
2.43.0


From 1204dba27e03c480b32e19605a1f9c081e45bba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:22 +0000
Subject: [PATCH 26/49] fix: close the socket of a failed connection attempt in
 the hardware client

Every attempt to reach an absent timelord leaked one descriptor.
---
 src/hw/hw_vdf_client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 5f17f2b..1e290fc 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -146,6 +146,8 @@ void init_conn(struct vdf_conn *conn, uint32_t ip, int port)
     ret = connect(conn->sock, (struct sockaddr *)&sa, sizeof(sa));
     if (ret < 0) {
         perror("connect");
+        vdf_socket_close(conn->sock);
+        conn->sock = kInvalidSocket;
         vdf_sleep(1);
         return;
     }
-- 
2.43.0


From 95ada8a59a3c3be851f23acd21ff22136317762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:30 +0000
Subject: [PATCH 27/49] fix: make the stop flag of the hardware client's
 workers atomic

Value workers and proof threads poll it while the main loop sets it.
---
 src/hw/hw_proof.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.hpp b/src/hw/hw_proof.hpp
index 7eadfaa..7011e81 100644
--- a/src/hw/hw_proof.hpp
+++ b/src/hw/hw_proof.hpp
@@ -86,7 +86,7 @@ struct vdf_state {
     uint8_t max_aux_threads;
     uint8_t max_proof_threads;
     bool completed;
-    bool stopping;
+    std::atomic<bool> stopping;
     bool init_done;
 };
 
-- 
2.43.0


From 3e375f310796682aaa2670389284c59a867ff0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:32 +0000
Subject: [PATCH 28/49] fix: release the proof thread count before the busy
 flag in the hardware client

A stop waits for the busy flags only; a proof thread that was preempted
between the two updates decremented the next session's fresh counter
below zero, after which no proof was started any more.
---
 src/hw/hw_proof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index e0f0202..593de03 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -738,8 +738,9 @@ void hw_compute_proof(struct vdf_state *vdf, size_t proof_idx, struct vdf_proof
 
 out:
     if (thr_idx < vdf->max_aux_threads) {
-        vdf->aux_threads_busy &= ~(1UL << thr_idx);
+        // The state may be reused as soon as the thread is no longer busy
         vdf->n_proof_threads -= PARALLEL_PROVER_N_THREADS;
+        vdf->aux_threads_busy &= ~(1UL << thr_idx);
     }
 }
 
-- 
2.43.0


From 005bbf2562bd7f4b87f23543fb17c02db735a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:44 +0000
Subject: [PATCH 29/49] fix: mark the hardware client's connections as having
 no VDF state until a challenge arrives

---
 src/hw/hw_vdf_client.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 1e290fc..ea8429d 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -177,6 +177,7 @@ void init_vdf_client(struct vdf_client *client)
             continue;
         }
         client->conns[i].vdf.idx = i;
+        client->conns[i].vdf.init_done = false;
         client->conns[i].sock = kInvalidSocket;
         memset(client->conns[i].read_buf, 0, sizeof(client->conns[i].read_buf));
         client->conns[i].buf_pos = 0;
-- 
2.43.0


From 2a0ff3243ca1a1d5d1464587261b74ef32583cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:55 +0000
Subject: [PATCH 30/49] fix: the hardware client loses what a short or blocked
 write leaves over

---
 src/hw/hw_vdf_client.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index ea8429d..0927388 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -240,10 +240,22 @@ int read_data(struct vdf_client *client, struct vdf_conn *conn)
 
 void write_data(struct vdf_conn *conn, const char *buf, size_t size)
 {
-    int bytes = vdf_socket_write(conn->sock, buf, size);
-    if (bytes < 0) {
-        perror("write");
-        throw std::runtime_error("Write error");
+    uint32_t retries = 0;
+    while (size) {
+        int bytes = vdf_socket_write(conn->sock, buf, size);
+        if (bytes < 0) {
+            // The socket is non-blocking, give the timelord up to a second to read
+            if (vdf_socket_would_block() && retries < 1000) {
+                retries++;
+                vdf_usleep(1000);
+                continue;
+            }
+            perror("write");
+            throw std::runtime_error("Write error");
+        }
+        retries = 0;
+        buf += bytes;
+        size -= bytes;
     }
 }
 
-- 
2.43.0


From e623d694534c2e3992a45399f14699f59ca591eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:55 +0000
Subject: [PATCH 31/49] fix: a timelord closing its connection kills the
 hardware client with SIGPIPE

---
 src/hw/hw_vdf_client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 0927388..0904dc7 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -755,6 +755,8 @@ int hw_vdf_client_main(int argc, char **argv)
     sa.sa_handler = signal_handler;
     sigaction(SIGINT, &sa, NULL);
     sigaction(SIGTERM, &sa, NULL);
+    // Writing to a connection closed by the timelord is reported by write()
+    signal(SIGPIPE, SIG_IGN);
 #endif
 
     event_loop(&client);
-- 
2.43.0


From 593d3a7889b4486b5131e0ad6c1b5cb615ac98e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:55 +0000
Subject: [PATCH 32/49] fix: the hardware client announces a stop twice when
 the timelord closes right after it

---
 src/hw/hw_vdf_client.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 0904dc7..5ef57d4 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -229,7 +229,9 @@ int read_data(struct vdf_client *client, struct vdf_conn *conn)
         } else {
             perror("read");
         }
-        stop_conn(client, conn);
+        if (conn->state != STOPPED) {
+            stop_conn(client, conn);
+        }
         close_conn(conn);
     } else if (bytes > 0) {
         conn->buf_pos += bytes;
-- 
2.43.0


From 9d6babb29dd25360f5e0f1acfe0ddce64cf5b550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:55 +0000
Subject: [PATCH 33/49] fix: a bad or broken connection terminates the hardware
 client and every other session

---
 src/hw/hw_vdf_client.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 5ef57d4..9a0c0c0 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -219,6 +219,17 @@ void close_conn(struct vdf_conn *conn)
     }
 }
 
+// Give up a failed connection, the other ones are not affected
+void drop_conn(struct vdf_client *client, struct vdf_conn *conn)
+{
+    if (conn->vdf.init_done) {
+        hw_stop_proof(&conn->vdf);
+        clear_vdf_state(&conn->vdf);
+        stop_hw_vdf(client->drv, conn->vdf.idx);
+    }
+    close_conn(conn);
+}
+
 int read_data(struct vdf_client *client, struct vdf_conn *conn)
 {
     int bytes = vdf_socket_read(conn->sock, conn->read_buf + conn->buf_pos,
@@ -438,7 +449,12 @@ void event_loop(struct vdf_client *client)
             if (!(client->opts.vdfs_mask & (1 << i))) {
                 continue;
             }
-            handle_conn(client, &client->conns[i]);
+            try {
+                handle_conn(client, &client->conns[i]);
+            } catch (const std::runtime_error &e) {
+                LOG_ERROR("VDF %d: %s, dropping connection", i, e.what());
+                drop_conn(client, &client->conns[i]);
+            }
             if (client->conns[i].state == RUNNING) {
                 running_mask |= 1 << i;
             }
-- 
2.43.0


From 4321d194448dc052385fa608db5fddf05f9f5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:55 +0000
Subject: [PATCH 34/49] fix: the hardware client fails on requests which arrive
 in parts

---
 src/hw/hw_vdf_client.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 9a0c0c0..05cea3f 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -275,21 +275,29 @@ void write_data(struct vdf_conn *conn, const char *buf, size_t size)
 void handle_iters(struct vdf_client *client, struct vdf_conn *conn)
 {
     char *buf = conn->read_buf;
-    char iters_size_buf[3] = {0}, iters_buf[16];
+    char iters_size_buf[3] = {0}, iters_buf[21] = {0};
     uint64_t iters;
     uint32_t bytes = conn->buf_pos, iters_size;
 
-    while (bytes) {
+    while (bytes >= 2) {
         memcpy(iters_size_buf, buf, 2);
         iters_size = strtoul(iters_size_buf, NULL, 10);
-        if (iters_size > sizeof(iters_buf) || bytes < 2 + iters_size) {
+        if (strspn(iters_size_buf, "0123456789") != 2 || iters_size >= sizeof(iters_buf)) {
             LOG_ERROR("Bad iters data size: %u", bytes);
             throw std::runtime_error("Bad data size");
         }
+        if (bytes < 2 + iters_size) {
+            // Expecting the rest of the number
+            break;
+        }
         //buf[2 + iters_size] = '\0';
         memcpy(iters_buf, &buf[2], iters_size);
         iters_buf[iters_size] = '\0';
-        iters = strtoul(iters_buf, NULL, 10);
+        if (strspn(iters_buf, "0123456789") != iters_size) {
+            LOG_ERROR("Bad iters data");
+            throw std::runtime_error("Bad iters data");
+        }
+        iters = strtoull(iters_buf, NULL, 10);
 
         if (iters) {
             LOG_DEBUG("VDF %d: Requested proof for iters=%llu", conn->vdf.idx, (unsigned long long)iters);
@@ -298,15 +306,15 @@ void handle_iters(struct vdf_client *client, struct vdf_conn *conn)
             LOG_INFO("VDF %d: Stop requested", conn->vdf.idx);
             stop_conn(client, conn);
             bytes -= 2 + iters_size;
+            buf += 2 + iters_size;
             break;
         }
 
         bytes -= 2 + iters_size;
         buf += 2 + iters_size;
     }
-    if (!bytes) {
-        conn->buf_pos = 0;
-    }
+    memmove(conn->read_buf, buf, bytes);
+    conn->buf_pos = bytes;
     if (!conn->vdf.req_proofs.empty()) {
         size_t n_proofs = conn->vdf.req_proofs.size();
         char iters_str[100];
-- 
2.43.0


From 90b029c9c58ab8d894381d0afa1a05b1a38cc2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:28 +0000
Subject: [PATCH 35/49] fix: the hardware client fails on a challenge which
 arrives in parts and overruns its buffers on a malformed one

---
 src/hw/hw_vdf_client.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 05cea3f..cc0bf43 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -386,8 +386,8 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
     }
 
     if (conn->state == WAITING) {
-        uint64_t d_size;
-        char d_str[350];
+        uint64_t d_size, form_size;
+        char d_size_buf[4] = {0}, d_str[350];
         uint64_t n_iters = 2000UL * 1000 * 1000;
         uint8_t *init_form;
 
@@ -401,17 +401,27 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
             throw std::runtime_error("Bad initial data from timelord");
         }
 
-        d_size = strtoul(&buf[1], NULL, 10);
+        memcpy(d_size_buf, &buf[1], 3);
+        d_size = strtoul(d_size_buf, NULL, 10);
+        if (strspn(d_size_buf, "0123456789") != 3 || d_size >= sizeof(d_str)) {
+            LOG_ERROR("Bad discriminant size: %s", d_size_buf);
+            throw std::runtime_error("Bad discriminant size");
+        }
         if ((uint64_t)bytes < 4 + d_size + 1) {
             /* Expecting initial form after discriminant */
             return;
         }
         memcpy(d_str, &buf[4], d_size);
         d_str[d_size] = '\0';
-        if ((uint64_t)bytes != 4 + d_size + 1 + buf[4 + d_size]) {
-            LOG_ERROR("Bad data size: %d", bytes);
+        form_size = (uint8_t)buf[4 + d_size];
+        if (form_size != BQFC_FORM_SIZE) {
+            LOG_ERROR("Bad initial form size: %d", (int)form_size);
             throw std::runtime_error("Bad data size");
         }
+        if ((uint64_t)bytes < 4 + d_size + 1 + form_size) {
+            /* Expecting the rest of the initial form */
+            return;
+        }
 
         init_form = (uint8_t *)&buf[4 + d_size + 1];
         init_vdf_state(vdf, &client->opts.vpo, d_str, init_form, n_iters, vdf->idx);
@@ -419,8 +429,10 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
                 vdf->target_iters, vdf->idx);
         write_data(conn, "OK", 2);
         conn->state = RUNNING;
-        conn->buf_pos = 0;
+        conn->buf_pos = bytes - (4 + d_size + 1 + form_size);
+        memmove(buf, &buf[4 + d_size + 1 + form_size], conn->buf_pos);
         LOG_INFO("VDF %d: Received challenge, running", vdf->idx);
+        handle_iters(client, conn);
     } else if (conn->state == RUNNING || conn->state == IDLING) {
         if (conn->state == IDLING) {
             // No more readings will come, keep serving the queued work
-- 
2.43.0


From 16d9a5e1a8a4c62950abeb0ef996758ff136b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:28 +0000
Subject: [PATCH 36/49] fix: the hardware client runs on a discriminant or
 initial form it did not validate

---
 src/hw/hw_proof.cpp      | 34 +++++++++++++++++++++++++++++-----
 src/hw/hw_proof.hpp      |  2 +-
 src/hw/hw_vdf_client.cpp |  4 +++-
 3 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 593de03..b34744b 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -744,6 +744,20 @@ out:
     }
 }
 
+// Check that a and b belong to a form with the discriminant D
+static bool hw_proof_is_valid_form(struct vdf_state *vdf, struct vdf_value *val)
+{
+    integer c, a4;
+
+    if (mpz_sgn(val->a) <= 0) {
+        return false;
+    }
+    mpz_mul(c.impl, val->b, val->b);
+    mpz_sub(c.impl, c.impl, vdf->D.impl);
+    mpz_mul_2exp(a4.impl, val->a, 2);
+    return mpz_divisible_p(c.impl, a4.impl);
+}
+
 int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **out_proof)
 {
 #if 0
@@ -787,7 +801,7 @@ int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **out_proof)
     return -1;
 }
 
-void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const char *d_str, const uint8_t *init_form, uint64_t n_iters, uint8_t idx)
+int init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const char *d_str, const uint8_t *init_form, uint64_t n_iters, uint8_t idx)
 {
     //int ret;
     //struct vdf_value initial;
@@ -821,7 +835,12 @@ void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const ch
         vdf->max_proof_threads = opts->max_proof_threads;
     }
 
-    mpz_set_str(vdf->D.impl, d_str, 0);
+    if (mpz_set_str(vdf->D.impl, d_str, 0) < 0 || mpz_sgn(vdf->D.impl) >= 0 ||
+            mpz_fdiv_ui(vdf->D.impl, 4) != 1 ||
+            mpz_sizeinbase(vdf->D.impl, 2) > BQFC_MAX_D_BITS) {
+        LOG_ERROR("VDF %d: Invalid discriminant", idx);
+        return -1;
+    }
     mpz_set(vdf->L.impl, vdf->D.impl);
     mpz_neg(vdf->L.impl, vdf->L.impl);
     mpz_root(vdf->L.impl, vdf->L.impl, 4);
@@ -834,13 +853,18 @@ void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const ch
     //mpz_init_set_ui(initial.b, 1);
     //initial.iters = 0;
     init_vdf_value(&vdf->last_val);
-    // TODO: verify validity of initial form
-    bqfc_deserialize(vdf->last_val.a, vdf->last_val.b, vdf->D.impl, init_form,
-            BQFC_FORM_SIZE, BQFC_MAX_D_BITS, false);
+    if (bqfc_deserialize(vdf->last_val.a, vdf->last_val.b, vdf->D.impl, init_form,
+                BQFC_FORM_SIZE, BQFC_MAX_D_BITS, false) < 0 ||
+            !hw_proof_is_valid_form(vdf, &vdf->last_val)) {
+        LOG_ERROR("VDF %d: Invalid initial form", idx);
+        clear_vdf_state(vdf);
+        return -1;
+    }
     hw_proof_get_form(hw_proof_value_at(vdf, 0), vdf, &vdf->last_val);
     vdf->valid_values[0] = 1 << 0;
     //vdf->raw_values.push_back(initial);
     vdf->init_done = true;
+    return 0;
 }
 
 void clear_vdf_state(struct vdf_state *vdf)
diff --git a/src/hw/hw_proof.hpp b/src/hw/hw_proof.hpp
index 7011e81..a032274 100644
--- a/src/hw/hw_proof.hpp
+++ b/src/hw/hw_proof.hpp
@@ -98,7 +98,7 @@ void hw_stop_proof(struct vdf_state *vdf);
 void hw_request_proof(struct vdf_state *vdf, uint64_t iters, bool is_chkp);
 void hw_compute_proof(struct vdf_state *vdf, size_t proof_idx, struct vdf_proof *out_proof, uint8_t thr_idx);
 int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **proof);
-void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *params, const char *d_str, const uint8_t *init_form, uint64_t n_iters, uint8_t idx);
+int init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *params, const char *d_str, const uint8_t *init_form, uint64_t n_iters, uint8_t idx);
 void clear_vdf_state(struct vdf_state *vdf);
 
 #endif // HW_PROOF_H
diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index cc0bf43..1bc12f9 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -424,7 +424,9 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
         }
 
         init_form = (uint8_t *)&buf[4 + d_size + 1];
-        init_vdf_state(vdf, &client->opts.vpo, d_str, init_form, n_iters, vdf->idx);
+        if (init_vdf_state(vdf, &client->opts.vpo, d_str, init_form, n_iters, vdf->idx) < 0) {
+            throw std::runtime_error("Bad challenge");
+        }
         start_hw_vdf(client->drv, vdf->D.impl, vdf->last_val.a, vdf->last_val.b,
                 vdf->target_iters, vdf->idx);
         write_data(conn, "OK", 2);
-- 
2.43.0


From 338711305322a7287fa8a11045011365f190cc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:28 +0000
Subject: [PATCH 37/49] fix: auto frequency reads past the ends of the PLL
 table

---
 src/hw/hw_vdf_client.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 1bc12f9..8fb56a4 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -509,7 +509,7 @@ void event_loop(struct vdf_client *client)
                     f = hw_proof_last_good_form(vdf, &pos);
                     vdf->iters_offset = pos * vdf->interval;
 
-                    if (client->opts.auto_freq) {
+                    if (client->opts.auto_freq && client->drv->freq_idx > 0) {
                         adjust_hw_freq(client->drv, running_mask & ~(1 << i), -1);
                     }
 
@@ -529,8 +529,8 @@ void event_loop(struct vdf_client *client)
             uint64_t elapsed = vdf_get_elapsed_us(client->drv->last_freq_update);
             if (elapsed / 1000000 >= client->opts.auto_freq_period) {
                 // Check and see what the next frequency would be, and if its <= max allowed frequency
-                double next_freq = pll_entries[client->drv->freq_idx + 1].freq;
-                if (next_freq <= client->opts.max_freq) {
+                uint32_t next_idx = client->drv->freq_idx + 1;
+                if (next_idx < VALID_PLL_FREQS && pll_entries[next_idx].freq <= client->opts.max_freq) {
                     adjust_hw_freq(client->drv, running_mask, 1);
                 } else {
                     LOG_INFO("Can't increase frequency, already at maximum");
-- 
2.43.0


From a2611192a8a2bbbce44335d5d2e4894d5605466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:08 +0000
Subject: [PATCH 38/49] fix: Python verification functions read past a start
 form shorter than a serialized one

---
 src/python_bindings/fastvdf.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/python_bindings/fastvdf.cpp b/src/python_bindings/fastvdf.cpp
index 9af6750..574100b 100644
--- a/src/python_bindings/fastvdf.cpp
+++ b/src/python_bindings/fastvdf.cpp
@@ -68,6 +68,9 @@ PYBIND11_MODULE(_chiavdf, m) {
                                    const string& x_s,
                                    const string& proof_blob,
                                    const uint64_t num_iterations, const uint64_t disc_size_bits, const uint64_t recursion) {
+        // The start form is read as exactly BQFC_FORM_SIZE bytes.
+        if (x_s.size() != BQFC_FORM_SIZE)
+            return false;
         std::string discriminant_copy(discriminant);
         std::string x_s_copy(x_s);
         std::string proof_blob_copy(proof_blob);
@@ -87,6 +90,9 @@ PYBIND11_MODULE(_chiavdf, m) {
                                    const string& proof_blob,
                                    const uint64_t num_iterations,
                                    const uint64_t recursion) {
+        // The start form is read as exactly BQFC_FORM_SIZE bytes.
+        if (x_s.size() != BQFC_FORM_SIZE)
+            return false;
         std::string challenge_hash_str(challenge_hash);
         std::vector<uint8_t> challenge_hash_bits = std::vector<uint8_t>(challenge_hash_str.begin(), challenge_hash_str.end());
         std::string x_s_copy(x_s);
@@ -124,6 +130,9 @@ PYBIND11_MODULE(_chiavdf, m) {
                                    const string& x_s,
                                    const string& proof_blob,
                                    const uint64_t num_iterations, const uint64_t recursion) -> py::tuple {
+        // The start form is read as exactly BQFC_FORM_SIZE bytes.
+        if (x_s.size() != BQFC_FORM_SIZE)
+            return py::tuple(py::make_tuple(false, py::bytes()));
         std::string discriminant_copy(discriminant);
         std::string B_copy(B);
         std::string x_s_copy(x_s);
@@ -156,6 +165,9 @@ PYBIND11_MODULE(_chiavdf, m) {
                                    const string& x_s,
                                    const string& proof_blob,
                                    const uint64_t num_iterations, const uint64_t recursion) {
+        // The start form is read as exactly BQFC_FORM_SIZE bytes.
+        if (x_s.size() != BQFC_FORM_SIZE)
+            throw std::runtime_error("Invalid proof.");
         std::string discriminant_copy(discriminant);
         std::string x_s_copy(x_s);
         std::string proof_blob_copy(proof_blob);
-- 
2.43.0


From aed0b2b0fe7cc8aa4f834210bfbc805783f772e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:08 +0000
Subject: [PATCH 39/49] fix: Rust verify_n_wesolowski read past a start form
 shorter than a serialized one

---
 rust_bindings/src/lib.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rust_bindings/src/lib.rs b/rust_bindings/src/lib.rs
index fc4c91d..c50b92e 100644
--- a/rust_bindings/src/lib.rs
+++ b/rust_bindings/src/lib.rs
@@ -9,6 +9,9 @@ mod bindings {
     include!(concat!(env!("OUT_DIR"), "/bindings.rs"));
 }
 
+/// Size in bytes of a serialized form.
+const FORM_SIZE: usize = 100;
+
 pub fn create_discriminant(seed: &[u8], result: &mut [u8]) -> bool {
     // SAFETY: The length of each individual array is passed in as to prevent buffer overflows.
     // Exceptions are handled on the C++ side and None is returned if so.
@@ -29,6 +32,10 @@ pub fn verify_n_wesolowski(
     num_iterations: u64,
     recursion: u64,
 ) -> bool {
+    // The wrapper isn't given the length of `x_s`: it always reads a whole serialized form.
+    if x_s.len() != FORM_SIZE {
+        return false;
+    }
     // SAFETY: The length of each individual array is passed in as to prevent buffer overflows.
     // Exceptions are handled on the C++ side and false is returned if so.
     unsafe {
-- 
2.43.0


From cb5b1de1569c3b814bfa46ab6ba3ed685c864cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:27 +0000
Subject: [PATCH 40/49] fix: the hardware client accepted garbage and truncated
 option values

---
 src/hw/hw_vdf_client.cpp | 48 ++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 8fb56a4..98743a2 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -7,9 +7,13 @@
 #include "pll_freqs.hpp"
 #include "version.hpp"
 
+#include <cctype>
+#include <cerrno>
+#include <cmath>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <limits>
 #include <signal.h>
 
 #ifdef _WIN32
@@ -546,6 +550,31 @@ void event_loop(struct vdf_client *client)
     }
 }
 
+// The whole of `value` must be a finite number.
+static bool parse_opt_double(const char *value, double *out)
+{
+    char *end = nullptr;
+    *out = strtod(value, &end);
+    return end != value && !*end && std::isfinite(*out);
+}
+
+// The whole of `value` must be an unsigned number that fits the option.
+template <typename T>
+static bool parse_opt_uint(const char *value, T *out)
+{
+    char *end = nullptr;
+    if (!isdigit(static_cast<unsigned char>(*value))) {
+        return false;
+    }
+    errno = 0;
+    const unsigned long long parsed = strtoull(value, &end, 0);
+    if (errno || *end || parsed > std::numeric_limits<T>::max()) {
+        return false;
+    }
+    *out = static_cast<T>(parsed);
+    return true;
+}
+
 int parse_opts(int argc, char **argv, struct vdf_client_opts *opts)
 {
     int argi = 1;
@@ -622,10 +651,11 @@ int parse_opts(int argc, char **argv, struct vdf_client_opts *opts)
             value = argv[++argi];
         }
 
+        bool valid = true;
         if (!strcmp(name, "freq")) {
-            opts->freq = strtod(value, NULL);
+            valid = parse_opt_double(value, &opts->freq);
         } else if (!strcmp(name, "voltage")) {
-            opts->voltage = strtod(value, NULL);
+            valid = parse_opt_double(value, &opts->voltage);
         } else if (!strcmp(name, "ip")) {
             struct in_addr parsed_addr = {};
 #ifdef _WIN32
@@ -642,20 +672,24 @@ int parse_opts(int argc, char **argv, struct vdf_client_opts *opts)
             }
 #endif
         } else if (!strcmp(name, "vdfs-mask")) {
-            opts->vdfs_mask = strtoul(value, NULL, 0);
+            valid = parse_opt_uint(value, &opts->vdfs_mask);
         } else if (!strcmp(name, "vdf-threads")) {
-            opts->vpo.max_aux_threads = strtoul(value, NULL, 0);
+            valid = parse_opt_uint(value, &opts->vpo.max_aux_threads);
         } else if (!strcmp(name, "proof-threads")) {
-            opts->vpo.max_proof_threads = strtoul(value, NULL, 0);
+            valid = parse_opt_uint(value, &opts->vpo.max_proof_threads);
         } else if (!strcmp(name, "auto-freq-period")) {
             opts->auto_freq = true;
-            opts->auto_freq_period = strtoul(value, NULL, 0);
+            valid = parse_opt_uint(value, &opts->auto_freq_period);
         } else if (!strcmp(name, "max-freq")) {
-            opts->max_freq = strtod(value, NULL);
+            valid = parse_opt_double(value, &opts->max_freq);
         } else {
             LOG_SIMPLE("Invalid option");
             return -1;
         }
+        if (!valid) {
+            LOG_SIMPLE("Invalid option value");
+            return -1;
+        }
         argi++;
     }
 
-- 
2.43.0


From 8dfcf3f778fbff397a78ac4ccbc0d395cbf7e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:27 +0000
Subject: [PATCH 41/49] fix: a board voltage outside the range wrapped around
 into it

---
 src/hw/vdf_driver.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/hw/vdf_driver.cpp b/src/hw/vdf_driver.cpp
index 9709b20..6845fdc 100644
--- a/src/hw/vdf_driver.cpp
+++ b/src/hw/vdf_driver.cpp
@@ -577,15 +577,23 @@ int VdfDriver::SetBoardVoltage(double voltage) {
   double vr_factor = 100000.0;
   uint32_t vr_slope = 625;
   uint32_t vr_intercept = 24375;
-  vid =
-    (uint8_t)((((uint32_t)(voltage * vr_factor)) - vr_intercept) / vr_slope);
 
-  if ((vid < 0x29) || (vid > 0x79)) {
-    fprintf(stderr, "SetBoardVoltage illegal vid %d for voltage %1.3f\n",
-            vid, voltage);
+  // Check the range before converting, so that nothing can wrap around
+  if (!(voltage >= 0.0 && voltage < 2.0)) {
+    fprintf(stderr, "SetBoardVoltage illegal voltage %1.3f\n", voltage);
     return 1;
   }
 
+  uint32_t code =
+    (((uint32_t)(voltage * vr_factor)) - vr_intercept) / vr_slope;
+
+  if ((code < 0x29) || (code > 0x79)) {
+    fprintf(stderr, "SetBoardVoltage illegal vid %u for voltage %1.3f\n",
+            code, voltage);
+    return 1;
+  }
+  vid = (uint8_t)code;
+
   int ret_val = I2CWriteReg(VR_I2C_ADDR, 0x8, 0xe4); // Fixed compensation value
   ret_val |= I2CWriteReg(VR_I2C_ADDR, 0x7, vid);     // Voltage value
   if (ret_val != 0) {
-- 
2.43.0


From 7f6ad8d20b1f17227cf934f62a718467ddb72edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:27 +0000
Subject: [PATCH 42/49] fix: lost register writes were reported as a set
 frequency, alarm or sensor

---
 src/hw/hw_interface.cpp |  5 ++++-
 src/hw/vdf_driver.cpp   | 48 +++++++++++++++++++++++++++--------------
 src/hw/vdf_driver.hpp   |  2 +-
 3 files changed, 37 insertions(+), 18 deletions(-)

diff --git a/src/hw/hw_interface.cpp b/src/hw/hw_interface.cpp
index 129c6c6..a66ff8e 100644
--- a/src/hw/hw_interface.cpp
+++ b/src/hw/hw_interface.cpp
@@ -95,7 +95,10 @@ ChiaDriver *init_hw(double freq, double set_brd_voltage)
     LOG_INFO("Board power is %2.3f W", brd_power);
 
     // Enable PVT sensor
-    drv->EnablePvt();
+    if (drv->EnablePvt() != 0) {
+        LOG_ERROR("Aborting since PVT sensor not enabled");
+        goto fail;
+    }
 
     // Set external temperature alarm in PVT sensor
     set_status = drv->SetTempAlarmExternal(external_alarm_temp);
diff --git a/src/hw/vdf_driver.cpp b/src/hw/vdf_driver.cpp
index 6845fdc..706341d 100644
--- a/src/hw/vdf_driver.cpp
+++ b/src/hw/vdf_driver.cpp
@@ -153,10 +153,13 @@ size_t VdfDriver::read_bytes(size_t size, size_t offset, uint8_t *buf,
 }
 
 // Enable PVT
-void VdfDriver::EnablePvt() {
+int VdfDriver::EnablePvt() {
   uint32_t pvt_period = 83;
-  RegWrite(PVT_PERIOD_REG_OFFSET, pvt_period);
-  RegWrite(PVT_ENABLE_REG_OFFSET, (uint32_t)1);
+  int ret_val = RegWrite(PVT_PERIOD_REG_OFFSET, pvt_period);
+  if (ret_val != 0) {
+    return ret_val;
+  }
+  return RegWrite(PVT_ENABLE_REG_OFFSET, (uint32_t)1);
 }
 
 // Calculate temperature (C) from input code
@@ -304,8 +307,7 @@ bool VdfDriver::SetTempAlarmExternal(double temp) {
             temp_code, temp);
     return false;
   }
-  RegWrite(PVT_TEMP_ALARM_EXTERNAL_REG_OFFSET, temp_code);
-  return true;
+  return RegWrite(PVT_TEMP_ALARM_EXTERNAL_REG_OFFSET, temp_code) == 0;
 }
 
 // Set the PVT temperature engine alarm threshold
@@ -316,8 +318,7 @@ bool VdfDriver::SetTempAlarmEngine(double temp) {
             temp_code, temp);
     return false;
   }
-  RegWrite(PVT_TEMP_ALARM_ENGINE_REG_OFFSET, temp_code);
-  return true;
+  return RegWrite(PVT_TEMP_ALARM_ENGINE_REG_OFFSET, temp_code) == 0;
 }
 
 void VdfDriver::ResetPLL() {
@@ -332,7 +333,10 @@ bool VdfDriver::SetPLLFrequency(double frequency, uint32_t entry_index) {
 
   if (!entry_index) {
     // Reset is necessary for the initial setting of frequency
-    Reset(10000);
+    if (Reset(10000) != 0) {
+      fprintf(stderr, "SetPLLFrequency failed to reset the board\n");
+      return false;
+    }
     while (frequency > pll_entries[entry_index].freq) {
       entry_index++;
     }
@@ -356,17 +360,25 @@ bool VdfDriver::SetPLLFrequency(double frequency, uint32_t entry_index) {
   //printf("Frequency %lf should use entry %d - divr %d fi %d q %d range %d\n",
   //       frequency, entry_index, divr, divfi, divq, filter_range);
 
-  RegWrite(CLOCK_CONTROL_REG_OFFSET, (uint32_t)0x1); // Reset
+  int ret_val;
+  ret_val = RegWrite(CLOCK_CONTROL_REG_OFFSET, (uint32_t)0x1); // Reset
 
-  RegWrite(CLOCK_PRE_DIVIDE_REG_OFFSET, divr);
-  RegWrite(CLOCK_FB_DIVIDE_INTEGER_REG_OFFSET, divfi);
-  RegWrite(CLOCK_POST_DIVIDE_REG_OFFSET, divq);
-  RegWrite(CLOCK_FILTER_RANGE_REG_OFFSET, filter_range);
+  ret_val |= RegWrite(CLOCK_PRE_DIVIDE_REG_OFFSET, divr);
+  ret_val |= RegWrite(CLOCK_FB_DIVIDE_INTEGER_REG_OFFSET, divfi);
+  ret_val |= RegWrite(CLOCK_POST_DIVIDE_REG_OFFSET, divq);
+  ret_val |= RegWrite(CLOCK_FILTER_RANGE_REG_OFFSET, filter_range);
+  if (ret_val != 0) {
+    fprintf(stderr, "SetPLLFrequency failed to write dividers\n");
+    return false;
+  }
 
-  RegWrite(CLOCK_CONTROL_REG_OFFSET, (uint32_t)0x4); // New div
+  ret_val = RegWrite(CLOCK_CONTROL_REG_OFFSET, (uint32_t)0x4); // New div
+  if (ret_val != 0) {
+    fprintf(stderr, "SetPLLFrequency failed to apply dividers\n");
+    return false;
+  }
 
   // Wait for ack on new div
-  int ret_val;
   uint32_t pll_status = 0;
   int read_attempts = 0;
   while (((pll_status >> CLOCK_STATUS_DIVACK_BIT) & 0x1) == 0) {
@@ -380,7 +392,11 @@ bool VdfDriver::SetPLLFrequency(double frequency, uint32_t entry_index) {
   }
 
   // Clear control reg
-  RegWrite(CLOCK_CONTROL_REG_OFFSET, (uint32_t)0x0);
+  ret_val = RegWrite(CLOCK_CONTROL_REG_OFFSET, (uint32_t)0x0);
+  if (ret_val != 0) {
+    fprintf(stderr, "SetPLLFrequency failed to clear control reg\n");
+    return false;
+  }
 
   // Wait for lock
   pll_status = 0;
diff --git a/src/hw/vdf_driver.hpp b/src/hw/vdf_driver.hpp
index e78a9b8..443055d 100644
--- a/src/hw/vdf_driver.hpp
+++ b/src/hw/vdf_driver.hpp
@@ -102,7 +102,7 @@ public:
     EnableEngine(control_csr);
   }
 
-  void EnablePvt();
+  int EnablePvt();
   double ValueToTemp(uint32_t temp_code);
   uint32_t TempToValue(double temp);
   double GetPvtTemp();
-- 
2.43.0


From 9e71b7b7e457f57c3af0b0ab6afeccf056ff5117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:27 +0000
Subject: [PATCH 43/49] fix: the USB bridge was left uninitialised when opened
 again

---
 src/hw/ftdi_driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hw/ftdi_driver.cpp b/src/hw/ftdi_driver.cpp
index 4d6a60f..18e2d13 100644
--- a/src/hw/ftdi_driver.cpp
+++ b/src/hw/ftdi_driver.cpp
@@ -302,6 +302,7 @@ int FtdiDriver::Close() {
   if (spi_ft_handle != NULL) {
     //printf("FtdiDriver::Close\n");
     CHECK(FT4222_UnInitialize(spi_ft_handle));
+    active_mode = MODE_none;
     CHECK(FT_Close(spi_ft_handle));
     spi_ft_handle = NULL;
   }
-- 
2.43.0


From 46c1825cb41bcb3f8c995d3dd457c0f601c1b7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:27 +0000
Subject: [PATCH 44/49] fix: a GPIO direction the device refused was remembered
 as set

---
 src/hw/ftdi_driver.cpp | 10 ++++++++--
 src/hw/ftdi_driver.hpp |  3 +++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/hw/ftdi_driver.cpp b/src/hw/ftdi_driver.cpp
index 18e2d13..ed901bf 100644
--- a/src/hw/ftdi_driver.cpp
+++ b/src/hw/ftdi_driver.cpp
@@ -287,7 +287,9 @@ int FtdiDriver::Open(DWORD loc_id, unsigned sys_clk, unsigned clk_div) {
   gpio_dir[1] = GPIO_INPUT;
   gpio_dir[2] = GPIO_INPUT;
   gpio_dir[3] = GPIO_INPUT;
+  gpio_dir_set = false;
   CHECK(FT4222_GPIO_Init(gpio_ft_handle, gpio_dir));
+  gpio_dir_set = true;
 
   // Set up GPIOs
   // Disable suspend out, enable gpio 2
@@ -555,9 +557,11 @@ int FtdiDriver::SetGPIO(GPIO_Port port, bool value) {
          (cnfmode==1 &&
           (port == GPIO_PORT2 || port == GPIO_PORT3)));
   //FIXME: might this cause a glitch when going from tri to out?
-  if (gpio_dir[port] != GPIO_OUTPUT) {
+  if (gpio_dir[port] != GPIO_OUTPUT || !gpio_dir_set) {
     gpio_dir[port] = GPIO_OUTPUT;
+    gpio_dir_set = false;
     CHECK(FT4222_GPIO_Init(gpio_ft_handle, gpio_dir));
+    gpio_dir_set = true;
   }
   CHECK(FT4222_GPIO_Write(gpio_ft_handle, port, value));
   return 0;
@@ -586,9 +590,11 @@ int FtdiDriver::TriGPIO(GPIO_Port port)
          ||
          (cnfmode==1 &&
           (port == GPIO_PORT2 || port == GPIO_PORT3)));
-  if (gpio_dir[port] != GPIO_INPUT) {
+  if (gpio_dir[port] != GPIO_INPUT || !gpio_dir_set) {
     gpio_dir[port] = GPIO_INPUT;
+    gpio_dir_set = false;
     CHECK(FT4222_GPIO_Init(gpio_ft_handle, gpio_dir));
+    gpio_dir_set = true;
   }
   return 0;
 }
diff --git a/src/hw/ftdi_driver.hpp b/src/hw/ftdi_driver.hpp
index ad74928..bd59c33 100644
--- a/src/hw/ftdi_driver.hpp
+++ b/src/hw/ftdi_driver.hpp
@@ -169,6 +169,9 @@ private:
 
   GPIO_Dir gpio_dir[4];
 
+  // whether the device has accepted gpio_dir
+  bool gpio_dir_set = false;
+
   // selected SPI clock divider
   FT4222_SPIClock spi_clk_div;
 
-- 
2.43.0


From 0baba94c8bb3e6f8c0176ca5f9b8bbb61a5d30f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:27 +0000
Subject: [PATCH 45/49] fix: a failed read of the accelerator status was taken
 for a reading

---
 src/hw/hw_interface.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/hw/hw_interface.cpp b/src/hw/hw_interface.cpp
index a66ff8e..90214c2 100644
--- a/src/hw/hw_interface.cpp
+++ b/src/hw/hw_interface.cpp
@@ -184,12 +184,13 @@ int read_hw_status(ChiaDriver *drv, uint8_t idx_mask, struct vdf_value *values)
     for (int i = 0; i < N_HW_VDFS; i++) {
         uint8_t *job;
         struct vdf_value *val = &values[i];
+        int ret;
 
         if (i == 0 && idx_mask & (HW_VDF_TEMP_FLAG | (1 << i))) {
-            drv->ftdi.Read(0x300000, read_status, HW_VDF_STATUS_SIZE + 20);
+            ret = drv->ftdi.Read(0x300000, read_status, HW_VDF_STATUS_SIZE + 20);
             job = read_status + 20;
 
-            if (idx_mask & HW_VDF_TEMP_FLAG) {
+            if (ret == 0 && (idx_mask & HW_VDF_TEMP_FLAG)) {
                 uint32_t temp_code;
                 drv->read_bytes(4, 0, read_status, temp_code);
                 double temp = drv->ValueToTemp(temp_code);
@@ -197,14 +198,18 @@ int read_hw_status(ChiaDriver *drv, uint8_t idx_mask, struct vdf_value *values)
                         temp, pll_entries[drv->freq_idx].freq, drv->freq_idx);
             }
         } else if (idx_mask & (1 << i)) {
-            drv->ftdi.Read(CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + (0x10000 * i),
-                           read_status, HW_VDF_STATUS_SIZE);
+            ret = drv->ftdi.Read(CHIA_VDF_STATUS_JOB_ID_REG_OFFSET + (0x10000 * i),
+                                 read_status, HW_VDF_STATUS_SIZE);
             job = read_status;
         } else {
             continue;
         }
 
-        if (idx_mask & (1 << i)) {
+        if (ret != 0) {
+            // Nothing was read, there is no new value
+            LOG_ERROR("VDF %d: Failed to read status", i);
+            val->iters = 0;
+        } else if (idx_mask & (1 << i)) {
             drv->DeserializeJob(job, job_id, val->iters, val->a, val->b);
             LOG_DEBUG("VDF %d: Got iters=%lu", i, val->iters);
         }
-- 
2.43.0


From e140aeaa76e78d8208232f36070410ff07d60ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:28 +0000
Subject: [PATCH 46/49] fix: an engine whose restart failed had its previous
 job recorded at the new offset

---
 src/hw/hw_interface.cpp  |  8 ++++++--
 src/hw/hw_vdf_client.cpp | 17 +++++++++++------
 src/hw/vdf_driver.hpp    |  8 +++++---
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/hw/hw_interface.cpp b/src/hw/hw_interface.cpp
index 90214c2..3868fad 100644
--- a/src/hw/hw_interface.cpp
+++ b/src/hw/hw_interface.cpp
@@ -161,8 +161,12 @@ int start_hw_vdf(ChiaDriver *drv, mpz_t d, mpz_t a, mpz_t b, uint64_t n_iters, i
     prepare_job(drv, n_iters, job, d, a, b);
 
     // Enable the engine and write in the job
-    drv->EnableEngine(base_addr);
-    drv->ftdi.Write(base_addr + CHIA_VDF_JOB_ID_OFFSET, job, sizeof(job));
+    int ret = drv->EnableEngine(base_addr);
+    ret |= drv->ftdi.Write(base_addr + CHIA_VDF_JOB_ID_OFFSET, job, sizeof(job));
+    if (ret != 0) {
+        LOG_ERROR("VDF %d: Failed to start the engine", idx);
+        return -1;
+    }
 
     // Provide time to clear any stale data in status registers
     //usleep(150000);
diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 98743a2..b03e52b 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -46,6 +46,7 @@ struct vdf_conn {
     char read_buf[512];
     uint32_t buf_pos;
     enum conn_state state;
+    bool start_failed = false; // the engine does not run our job
 };
 
 struct vdf_client_opts {
@@ -431,8 +432,8 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
         if (init_vdf_state(vdf, &client->opts.vpo, d_str, init_form, n_iters, vdf->idx) < 0) {
             throw std::runtime_error("Bad challenge");
         }
-        start_hw_vdf(client->drv, vdf->D.impl, vdf->last_val.a, vdf->last_val.b,
-                vdf->target_iters, vdf->idx);
+        conn->start_failed = start_hw_vdf(client->drv, vdf->D.impl,
+                vdf->last_val.a, vdf->last_val.b, vdf->target_iters, vdf->idx) != 0;
         write_data(conn, "OK", 2);
         conn->state = RUNNING;
         conn->buf_pos = bytes - (4 + d_size + 1 + form_size);
@@ -505,7 +506,10 @@ void event_loop(struct vdf_client *client)
             if (running_mask & (1 << i)) {
                 struct vdf_state *vdf = &client->conns[i].vdf;
 
-                if (hw_proof_add_value(vdf, &client->values[i]) < 0) {
+                bool start_failed = client->conns[i].start_failed;
+
+                // Readings of an engine that was not started belong to another job
+                if (start_failed || hw_proof_add_value(vdf, &client->values[i]) < 0) {
                     size_t pos = 0;
                     form *f;
 
@@ -513,14 +517,15 @@ void event_loop(struct vdf_client *client)
                     f = hw_proof_last_good_form(vdf, &pos);
                     vdf->iters_offset = pos * vdf->interval;
 
-                    if (client->opts.auto_freq && client->drv->freq_idx > 0) {
+                    if (!start_failed && client->opts.auto_freq && client->drv->freq_idx > 0) {
                         adjust_hw_freq(client->drv, running_mask & ~(1 << i), -1);
                     }
 
                     LOG_INFO("VDF %d: Restarting VDF at %llu iters",
                             vdf->idx, (unsigned long long)vdf->iters_offset);
-                    start_hw_vdf(client->drv, vdf->D.impl, f->a.impl, f->b.impl,
-                            vdf->target_iters - vdf->iters_offset, vdf->idx);
+                    client->conns[i].start_failed = start_hw_vdf(client->drv,
+                            vdf->D.impl, f->a.impl, f->b.impl,
+                            vdf->target_iters - vdf->iters_offset, vdf->idx) != 0;
                 }
                 if (client->conns[i].vdf.completed) {
                     stop_hw_vdf(client->drv, i);
diff --git a/src/hw/vdf_driver.hpp b/src/hw/vdf_driver.hpp
index 443055d..be487a4 100644
--- a/src/hw/vdf_driver.hpp
+++ b/src/hw/vdf_driver.hpp
@@ -85,9 +85,11 @@ public:
   }
 
   // Enable the engine at the provided address
-  void EnableEngine(unsigned control_csr) {
-    RegWrite(control_csr, (uint32_t)0);  // Clear reset
-    RegWrite(control_csr, CLOCK_BIT);    // Enable clock
+  // Returns 0 on success
+  int EnableEngine(unsigned control_csr) {
+    int ret = RegWrite(control_csr, (uint32_t)0);  // Clear reset
+    ret |= RegWrite(control_csr, CLOCK_BIT);       // Enable clock
+    return ret;
   }
 
   // Disable the engine at the provided address
-- 
2.43.0


From cb13107af29eb0e827522d501ed2320ff092fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:25 +0000
Subject: [PATCH 47/49] fix: reading next to a job's registers crashed the
 emulated accelerator

Windows that begin before, behind or near the end of a register block were
copied with negative lengths or left partly unset.
---
 src/hw/emu_runner.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/hw/emu_runner.cpp b/src/hw/emu_runner.cpp
index 336ab1a..de64beb 100644
--- a/src/hw/emu_runner.cpp
+++ b/src/hw/emu_runner.cpp
@@ -216,18 +216,24 @@ void update_status(struct job_status *stat, struct job_state *st)
 
 void copy_regs(void *dst, void *src, uint32_t size, uint32_t max_size, int32_t offset)
 {
+    // Bytes outside of the register block read as 0
+    memset(dst, 0, size);
     if (offset < 0) {
-        memset(dst, 0, -offset);
-        size += offset;
-        dst = (uint8_t *)dst - offset;
+        uint32_t skip = -offset;
+        if (skip >= size) {
+            return;
+        }
+        size -= skip;
+        dst = (uint8_t *)dst + skip;
         offset = 0;
     }
-    if (size + offset <= max_size) {
-        memcpy(dst, (uint8_t *)src + offset, size);
-    } else {
-        memcpy(dst, (uint8_t *)src + offset, max_size - offset);
-        memset((uint8_t *)dst + max_size - offset, 0, offset);
+    if ((uint32_t)offset >= max_size) {
+        return;
     }
+    if (size > max_size - offset) {
+        size = max_size - offset;
+    }
+    memcpy(dst, (uint8_t *)src + offset, size);
 }
 
 #define CHIA_VDF_STATUS_SIZE 0xb4
@@ -263,7 +269,12 @@ void read_regs(uint32_t addr, uint8_t *buf, uint32_t size)
     }
 
     if (addr + size > job_status_base && addr < job_status_end) {
-        uint32_t i = (addr - job_status_base) / CHIA_VDF_JOB_CSR_MULT;
+        // The job whose registers end after the start of this read
+        uint32_t i = 0;
+        while (i + 1 < N_VDFS && addr >= job_status_base + CHIA_VDF_JOB_CSR_MULT * i +
+                sizeof(g_status_regs[0])) {
+            i++;
+        }
         int32_t offset = addr - job_status_base - CHIA_VDF_JOB_CSR_MULT * i;
         copy_regs(buf, &g_status_regs[i], size, sizeof(g_status_regs[0]), offset);
     } else if (addr + size > burst_start && addr < burst_end) {
-- 
2.43.0


From 655896bc33b20d1b669c3ce42d42eadd2d6bc9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:25 +0000
Subject: [PATCH 48/49] fix: the emulated accelerator ran two jobs on one state

A job thread that had not begun to run yet was not noticed when its engine
was restarted or the program ended; it then worked on freed or reused state.
The thread is now joined instead of detached.
---
 src/hw/emu_runner.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/hw/emu_runner.cpp b/src/hw/emu_runner.cpp
index de64beb..46e0ae2 100644
--- a/src/hw/emu_runner.cpp
+++ b/src/hw/emu_runner.cpp
@@ -60,10 +60,10 @@ struct job_state {
     form qf;
     std::atomic<bool> init_done{false};
     std::atomic<bool> stopping{true};
-    std::atomic<bool> running{false};
     std::atomic<bool> error{false};
     ChiaDriver *drv;
     std::mutex mtx;
+    std::thread thread;
 };
 
 static struct job_state *states[N_VDFS];
@@ -103,7 +103,6 @@ void run_job(int i)
     LOG_INFO("Emu %d: Starting run for %lu iters", i, st->target_iter);
 
     st->error.store(false, std::memory_order_release);
-    st->running.store(true, std::memory_order_release);
     while (!st->stopping.load(std::memory_order_acquire) && st->cur_iter < st->target_iter) {
         nudupl_form(qf2, st->qf, st->d, st->l);
         reducer.reduce(qf2);
@@ -117,7 +116,6 @@ void run_job(int i)
         st->qf = qf2;
         st->mtx.unlock();
     }
-    st->running.store(false, std::memory_order_release);
     LOG_INFO("Emu %d: job ended", i);
 }
 
@@ -126,18 +124,23 @@ void job_thread(int i)
     run_job(i);
 }
 
-static void start_job(int i)
+// Make the job thread end and wait for it: nothing else may touch its state before
+static void stop_thread(struct job_state *st)
 {
-    while (states[i]->running.load(std::memory_order_acquire)) {
-        states[i]->stopping.store(true, std::memory_order_release);
-        LOG_INFO("Emu %d: Waiting for the old thread to finish", i);
-        vdf_usleep(1000);
+    st->stopping.store(true, std::memory_order_release);
+    if (st->thread.joinable()) {
+        st->thread.join();
     }
+}
+
+static void start_job(int i)
+{
+    stop_thread(states[i]);
     clear_state(states[i]);
 
     LOG_INFO("Emu %d: Starting job", i);
     init_state(states[i], &g_job_regs[i]);
-    std::thread(job_thread, i).detach();
+    states[i]->thread = std::thread(job_thread, i);
     //usleep(100000);
 }
 
@@ -357,6 +360,7 @@ __attribute__((destructor)) void emu_shutdown(void)
 {
     for (int i = 0; i < N_VDFS; i++) {
         if (states[i]) {
+            stop_thread(states[i]);
             clear_state(states[i]);
             delete states[i];
             states[i] = NULL;
-- 
2.43.0


From 267af5817c1dd96ec708b73c0646e1a81fbb1b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:25 +0000
Subject: [PATCH 49/49] fix: an emulated engine never resumed after its clock
 was stopped

Changing the frequency stops and starts the clock; the job's thread ended at
the stop and the job stayed where it was for good.
---
 src/hw/emu_runner.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hw/emu_runner.cpp b/src/hw/emu_runner.cpp
index 46e0ae2..7715225 100644
--- a/src/hw/emu_runner.cpp
+++ b/src/hw/emu_runner.cpp
@@ -165,7 +165,12 @@ static void enable_engine(int i)
         #endif
     }
     if (states[i]->stopping.load(std::memory_order_acquire)) {
+        stop_thread(states[i]);
         states[i]->stopping.store(false, std::memory_order_release);
+        if (states[i]->init_done.load(std::memory_order_acquire)) {
+            // The clock is back, go on with the job
+            states[i]->thread = std::thread(job_thread, i);
+        }
         LOG_INFO("Emu %d: Enabling engine", i);
     }
 }
-- 
2.43.0

