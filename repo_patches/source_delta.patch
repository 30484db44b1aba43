From f9d512c2bbda6518bd55ea8579eaa4908cbf16a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 1/5] fix: accept signatures that publish the maximum number of
 seeds

A challenge can force exactly MAX_PUBLISHED_SEEDS tree seeds; the signer emits
such signatures, crypto_sign_open rejected them.
---
 Optimized_Implementation/common/lib/sign.c | 2 +-
 Reference_Implementation/lib/sign.c        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index d67cce6..2483191 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -72,7 +72,7 @@ int crypto_sign_open(unsigned char *m,
 {
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 3320cef..4a4d110 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -73,7 +73,7 @@ int crypto_sign_open(unsigned char *m,
 {
 
     const uint8_t num_seeds_published = sm[smlen - 1u];
-    if (num_seeds_published >= MAX_PUBLISHED_SEEDS) {
+    if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
     }
 
-- 
2.43.0


From f99932053dd4ceee38316f61b052cb2ffd830af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:32 +0000
Subject: [PATCH 2/5] fix: reject signed messages shorter than a signature

crypto_sign_open computed *mlen = smlen - sig_len without checking that smlen is
at least sig_len (or nonzero), so that short inputs were read and copied out of
bounds.
---
 Optimized_Implementation/common/lib/sign.c | 10 ++++++++++
 Reference_Implementation/lib/sign.c        | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index 2483191..934a716 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -71,6 +71,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* the last byte holds the number of published seeds */
+    if (smlen < 1u) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -79,6 +84,11 @@ int crypto_sign_open(unsigned char *m,
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES(num_seeds_published);
 
+    /* too short to contain a signature with that many seeds */
+    if (smlen < (unsigned long long)sig_len) {
+        return -1;
+    }
+
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 4a4d110..0ff15e0 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -72,6 +72,11 @@ int crypto_sign_open(unsigned char *m,
                      const unsigned char *pk)                           // in parameter
 {
 
+    /* the last byte holds the number of published seeds */
+    if (smlen < 1u) {
+        return -1;
+    }
+
     const uint8_t num_seeds_published = sm[smlen - 1u];
     if (num_seeds_published > MAX_PUBLISHED_SEEDS) {
         return -1;
@@ -80,6 +85,11 @@ int crypto_sign_open(unsigned char *m,
     // the size of the signature in bytes
     const uint32_t sig_len = LESS_CRYPTO_BYTES((uint32_t)num_seeds_published);
 
+    /* too short to contain a signature with that many seeds */
+    if (smlen < (unsigned long long)sig_len) {
+        return -1;
+    }
+
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
-- 
2.43.0


From 9c6cf9ec04fcbd44763e8872f604f72b72d57b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:17 +0000
Subject: [PATCH 3/5] fix: reject signatures whose seed count does not fit the
 challenge

The verifier reads as many seeds as the challenge in the digest needs, whatever
the trailing count byte says: with a smaller count it read past the end of the
signed message. Compute the number first and require the count to match.
---
 .../common/include/seedtree.h                     |  5 +++++
 Optimized_Implementation/common/lib/seedtree.c    | 15 +++++++++++++++
 Optimized_Implementation/common/lib/sign.c        | 14 ++++++++++++++
 Reference_Implementation/include/seedtree.h       |  5 +++++
 Reference_Implementation/lib/seedtree.c           | 15 +++++++++++++++
 Reference_Implementation/lib/sign.c               | 14 ++++++++++++++
 6 files changed, 68 insertions(+)

diff --git a/Optimized_Implementation/common/include/seedtree.h b/Optimized_Implementation/common/include/seedtree.h
index 26b75e4..55cbbb6 100644
--- a/Optimized_Implementation/common/include/seedtree.h
+++ b/Optimized_Implementation/common/include/seedtree.h
@@ -22,6 +22,11 @@ uint32_t seed_tree_path(const unsigned char
 
 /******************************************************************************/
 
+/* returns the number of seeds seed_tree_path publishes for these indices */
+uint32_t seed_tree_path_len(const unsigned char indices_to_publish[T]);
+
+/******************************************************************************/
+
 /* returns the number of seeds which have been used to regenerate the tree */
 uint32_t rebuild_seed_tree_leaves(unsigned char
                       seed_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],
diff --git a/Optimized_Implementation/common/lib/seedtree.c b/Optimized_Implementation/common/lib/seedtree.c
index dc57281..03f91b4 100644
--- a/Optimized_Implementation/common/lib/seedtree.c
+++ b/Optimized_Implementation/common/lib/seedtree.c
@@ -132,6 +132,21 @@ uint32_t seed_tree_path(const unsigned char
 
 /*****************************************************************************/
 
+uint32_t seed_tree_path_len(const unsigned char indices_to_publish[T]) {
+   unsigned char flags_tree_to_publish[NUM_NODES_OF_SEED_TREE] = {0};
+   compute_seeds_to_publish(flags_tree_to_publish, indices_to_publish);
+
+   uint32_t num_seeds_published = 0;
+   for (uint32_t i = 1; i < NUM_NODES_OF_SEED_TREE; i++) {
+      num_seeds_published += flags_tree_to_publish[i]         == TO_PUBLISH &&
+                             flags_tree_to_publish[PARENT(i)] == NOT_TO_PUBLISH;
+   }
+
+   return num_seeds_published;
+} /* end seed_tree_path_len */
+
+/*****************************************************************************/
+
 uint32_t rebuild_seed_tree_leaves(unsigned char
                              seed_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],
                              const unsigned char indices_to_publish[T],
diff --git a/Optimized_Implementation/common/lib/sign.c b/Optimized_Implementation/common/lib/sign.c
index 934a716..a79a37e 100644
--- a/Optimized_Implementation/common/lib/sign.c
+++ b/Optimized_Implementation/common/lib/sign.c
@@ -25,6 +25,8 @@
 
 
 #include "api.h"
+#include "seedtree.h"
+#include "utils.h"
 #include <string.h>  // memcpy
 
 /*----------------------------------------------------------------------------*/
@@ -89,6 +91,18 @@ int crypto_sign_open(unsigned char *m,
         return -1;
     }
 
+    /* the digest determines the challenge, and with it how many seeds the
+     * verifier reads: any other number is not a signature */
+    const sign_t *const sig = (const sign_t *) (sm + (smlen - sig_len));
+    uint8_t fixed_weight_string[T] = {0};
+    expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
+    for (uint32_t i = 0; i < T; i++) {
+        fixed_weight_string[i] = !!(fixed_weight_string[i]);
+    }
+    if (seed_tree_path_len(fixed_weight_string) != num_seeds_published) {
+        return -1;
+    }
+
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
diff --git a/Reference_Implementation/include/seedtree.h b/Reference_Implementation/include/seedtree.h
index 102c945..ce4d50e 100644
--- a/Reference_Implementation/include/seedtree.h
+++ b/Reference_Implementation/include/seedtree.h
@@ -24,6 +24,11 @@ uint32_t seed_tree_path(const unsigned char
 
 /******************************************************************************/
 
+/* returns the number of seeds seed_tree_path publishes for these indices */
+uint32_t seed_tree_path_len(const unsigned char indices_to_publish[T]);
+
+/******************************************************************************/
+
 /* returns the number of seeds which have been used to regenerate the tree */
 uint32_t rebuild_seed_tree_leaves(unsigned char
                       seed_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],
diff --git a/Reference_Implementation/lib/seedtree.c b/Reference_Implementation/lib/seedtree.c
index d873519..ea6005c 100644
--- a/Reference_Implementation/lib/seedtree.c
+++ b/Reference_Implementation/lib/seedtree.c
@@ -133,6 +133,21 @@ uint32_t seed_tree_path(const unsigned char
 
 /*****************************************************************************/
 
+uint32_t seed_tree_path_len(const unsigned char indices_to_publish[T]) {
+   unsigned char flags_tree_to_publish[NUM_NODES_OF_SEED_TREE] = {0};
+   compute_seeds_to_publish(flags_tree_to_publish, indices_to_publish);
+
+   uint32_t num_seeds_published = 0;
+   for (uint32_t i = 1; i < NUM_NODES_OF_SEED_TREE; i++) {
+      num_seeds_published += flags_tree_to_publish[i]         == TO_PUBLISH &&
+                             flags_tree_to_publish[PARENT(i)] == NOT_TO_PUBLISH;
+   }
+
+   return num_seeds_published;
+} /* end seed_tree_path_len */
+
+/*****************************************************************************/
+
 uint32_t rebuild_seed_tree_leaves(unsigned char
                       seed_tree[NUM_NODES_OF_SEED_TREE*SEED_LENGTH_BYTES],
                       const unsigned char indices_to_publish[T],
diff --git a/Reference_Implementation/lib/sign.c b/Reference_Implementation/lib/sign.c
index 0ff15e0..3aef762 100644
--- a/Reference_Implementation/lib/sign.c
+++ b/Reference_Implementation/lib/sign.c
@@ -26,6 +26,8 @@
 
 
 #include "api.h"
+#include "seedtree.h"
+#include "utils.h"
 #include <stddef.h>  //  size_t
 #include <string.h>  // memcpy
 /*----------------------------------------------------------------------------*/
@@ -90,6 +92,18 @@ int crypto_sign_open(unsigned char *m,
         return -1;
     }
 
+    /* the digest determines the challenge, and with it how many seeds the
+     * verifier reads: any other number is not a signature */
+    const sign_t *const sig = (const sign_t *) (sm + (smlen - sig_len));
+    uint8_t fixed_weight_string[T] = {0};
+    expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
+    for (uint32_t i = 0; i < T; i++) {
+        fixed_weight_string[i] = !!(fixed_weight_string[i]);
+    }
+    if (seed_tree_path_len(fixed_weight_string) != num_seeds_published) {
+        return -1;
+    }
+
     *mlen = smlen - (unsigned long long)sig_len;
     memcpy((unsigned char *) m, (const unsigned char *) sm, (size_t) *mlen);
 
-- 
2.43.0


From b38810e1a9e7a3d93f5eb61c8071987f05864970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:05 +0000
Subject: [PATCH 4/5] fix: reject public keys with malformed matrices

A compressed matrix with fewer than K pivot flags made expand_to_rref read past
the end of the key, values outside the field reach the row reduction. Check both
before using the key.
---
 .../common/include/codes.h                    |  3 ++
 Optimized_Implementation/common/lib/LESS.c    |  7 +++++
 Optimized_Implementation/common/lib/codes.c   | 29 +++++++++++++++++++
 Reference_Implementation/include/codes.h      |  3 ++
 Reference_Implementation/lib/LESS.c           |  7 +++++
 Reference_Implementation/lib/codes.c          | 29 +++++++++++++++++++
 6 files changed, 78 insertions(+)

diff --git a/Optimized_Implementation/common/include/codes.h b/Optimized_Implementation/common/include/codes.h
index 26f0293..1d23ec8 100644
--- a/Optimized_Implementation/common/include/codes.h
+++ b/Optimized_Implementation/common/include/codes.h
@@ -89,6 +89,9 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
+/* returns 1 if the compressed RREF generator matrix is well formed, 0 otherwise */
+int is_compressed_rref_valid(const uint8_t *compressed);
+
 /* Expands a compressed RREF generator matrix into a full one */
 void expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
diff --git a/Optimized_Implementation/common/lib/LESS.c b/Optimized_Implementation/common/lib/LESS.c
index afbe512..15b6d56 100644
--- a/Optimized_Implementation/common/lib/LESS.c
+++ b/Optimized_Implementation/common/lib/LESS.c
@@ -214,6 +214,13 @@ int LESS_verify(const pubkey_t *const PK,
                 const uint64_t mlen,
                 const sign_t *const sig) {
 
+    /* the public key may come from anywhere: check its matrices before use */
+    for (uint32_t i = 0; i < NUM_KEYPAIRS - 1; i++) {
+        if (!is_compressed_rref_valid(PK->SF_G[i])) {
+            return 0;
+        }
+    }
+
     uint8_t fixed_weight_string[T] = {0};
     expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
     monomial_action_IS_t mono_action;
diff --git a/Optimized_Implementation/common/lib/codes.c b/Optimized_Implementation/common/lib/codes.c
index 38c6481..72add52 100644
--- a/Optimized_Implementation/common/lib/codes.c
+++ b/Optimized_Implementation/common/lib/codes.c
@@ -473,6 +473,35 @@ void compress_rref(uint8_t *compressed,
 }    
 
 
+/* Checks that a compressed RREF generator matrix has exactly K pivot columns and
+ * that all its entries are field elements */
+int is_compressed_rref_valid(const uint8_t *compressed) {
+    int num_pivots = 0;
+    for (int col_idx = 0; col_idx < N; col_idx++) {
+        num_pivots += (compressed[col_idx / 8] >> (col_idx % 8)) & 0x1;
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
+    const uint8_t *values = compressed + (N + 7) / 8;
+    uint32_t buffer = 0;
+    int available_bits = 0;
+    for (uint32_t i = 0; i < (uint32_t) K * (N - K); i++) {
+        if (available_bits < BITS_TO_REPRESENT(Q)) {
+            buffer |= (uint32_t) (*values++) << available_bits;
+            available_bits += 8;
+        }
+        if ((buffer & MASK_Q) >= Q) {
+            return 0;
+        }
+        buffer >>= BITS_TO_REPRESENT(Q);
+        available_bits -= BITS_TO_REPRESENT(Q);
+    }
+    return 1;
+} /* end is_compressed_rref_valid */
+
+
 /* Expands a compressed RREF generator matrix into a full one */
 void expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed)
diff --git a/Reference_Implementation/include/codes.h b/Reference_Implementation/include/codes.h
index 51df856..018d29c 100644
--- a/Reference_Implementation/include/codes.h
+++ b/Reference_Implementation/include/codes.h
@@ -89,6 +89,9 @@ void compress_rref(uint8_t *compressed,
                     const generator_mat_t *const full,
                     const uint8_t is_pivot_column[N]);
 
+/* returns 1 if the compressed RREF generator matrix is well formed, 0 otherwise */
+int is_compressed_rref_valid(const uint8_t *compressed);
+
 /* Expands a compressed RREF generator matrix into a full one */
 void expand_to_rref(generator_mat_t *full,
                         const uint8_t *compressed);
diff --git a/Reference_Implementation/lib/LESS.c b/Reference_Implementation/lib/LESS.c
index 84edae4..277f7f4 100644
--- a/Reference_Implementation/lib/LESS.c
+++ b/Reference_Implementation/lib/LESS.c
@@ -205,6 +205,13 @@ int LESS_verify(const pubkey_t *const PK,
                 const uint64_t mlen,
                 const sign_t *const sig) {
 
+    /* the public key may come from anywhere: check its matrices before use */
+    for (uint32_t i = 0; i < NUM_KEYPAIRS - 1; i++) {
+        if (!is_compressed_rref_valid(PK->SF_G[i])) {
+            return 0;
+        }
+    }
+
     uint8_t fixed_weight_string[T] = {0};
     expand_digest_to_fixed_weight(fixed_weight_string, sig->digest);
     monomial_action_IS_t mono_action;
diff --git a/Reference_Implementation/lib/codes.c b/Reference_Implementation/lib/codes.c
index c73f6da..bca1280 100644
--- a/Reference_Implementation/lib/codes.c
+++ b/Reference_Implementation/lib/codes.c
@@ -414,6 +414,35 @@ void compress_rref(uint8_t *compressed, const generator_mat_t *const full,
     } /* end compress_rref */
 }
 
+/* Checks that a compressed RREF generator matrix has exactly K pivot columns and
+ * that all its entries are field elements */
+int is_compressed_rref_valid(const uint8_t *compressed) {
+    int num_pivots = 0;
+    for (int col_idx = 0; col_idx < N; col_idx++) {
+        num_pivots += (compressed[col_idx / 8] >> (col_idx % 8)) & 0x1;
+    }
+    if (num_pivots != K) {
+        return 0;
+    }
+
+    const uint8_t *values = compressed + (N + 7) / 8;
+    uint32_t buffer = 0;
+    int available_bits = 0;
+    for (uint32_t i = 0; i < (uint32_t) K * (N - K); i++) {
+        if (available_bits < BITS_TO_REPRESENT(Q)) {
+            buffer |= (uint32_t) (*values++) << available_bits;
+            available_bits += 8;
+        }
+        if ((buffer & MASK_Q) >= Q) {
+            return 0;
+        }
+        buffer >>= BITS_TO_REPRESENT(Q);
+        available_bits -= BITS_TO_REPRESENT(Q);
+    }
+    return 1;
+} /* end is_compressed_rref_valid */
+
+
 /* Expands a compressed RREF generator matrix into a full one */
 void expand_to_rref(generator_mat_t *full, const uint8_t *compressed) {
     // Decompress pivot flags
-- 
2.43.0


From 94213762c59e36e8b97da2baad92dd6de3badb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:00 +0000
Subject: [PATCH 5/5] fix: refuse massif profiles with trailing text or unknown
 tree kinds

The snapshot fields were matched by prefix only, so that a line such as
'time=12abc' was read as 12 instead of being reported as a parse error.
---
 Utilities/MemoryBenchmarking/bench.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Utilities/MemoryBenchmarking/bench.py b/Utilities/MemoryBenchmarking/bench.py
index 7c946d1..7f07ba0 100644
--- a/Utilities/MemoryBenchmarking/bench.py
+++ b/Utilities/MemoryBenchmarking/bench.py
@@ -15,12 +15,12 @@ _FIELD_CMD_RE = re.compile("cmd:\s(?P<data>.*)$")
 _FIELD_TIME_UNIT_RE = re.compile("time_unit:\s(?P<data>ms|B|i)$")
 
 # Precompiled regexes used to parse snaphot fields.
-_FIELD_SNAPSHOT_RE = re.compile("snapshot=(?P<data>\d+)")
-_FIELD_TIME_RE = re.compile("time=(?P<data>\d+)")
-_FIELD_MEM_HEAP_RE = re.compile("mem_heap_B=(?P<data>\d+)")
-_FIELD_MEM_EXTRA_RE = re.compile("mem_heap_extra_B=(?P<data>\d+)")
-_FIELD_MEM_STACK_RE = re.compile("mem_stacks_B=(?P<data>\d+)")
-_FIELD_HEAP_TREE_RE = re.compile("heap_tree=(?P<data>\w+)")
+_FIELD_SNAPSHOT_RE = re.compile("snapshot=(?P<data>\d+)$")
+_FIELD_TIME_RE = re.compile("time=(?P<data>\d+)$")
+_FIELD_MEM_HEAP_RE = re.compile("mem_heap_B=(?P<data>\d+)$")
+_FIELD_MEM_EXTRA_RE = re.compile("mem_heap_extra_B=(?P<data>\d+)$")
+_FIELD_MEM_STACK_RE = re.compile("mem_stacks_B=(?P<data>\d+)$")
+_FIELD_HEAP_TREE_RE = re.compile("heap_tree=(?P<data>empty|detailed|peak)$")
 
 # Precompiled regex to parse heap entries. Matches three things:
 #   - the number of children,
-- 
2.43.0

