From f7d769c6dd4e7515a6a56e700b9bf7f35c483fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 1/7] fix: refuse to begin an output while the previous one is
 incomplete

---
 src/ergo/tx_ser_full.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ergo/tx_ser_full.c b/src/ergo/tx_ser_full.c
index fea3889..088c872 100644
--- a/src/ergo/tx_ser_full.c
+++ b/src/ergo/tx_ser_full.c
@@ -133,6 +133,7 @@ data_inputs_finished(ergo_tx_serializer_full_context_t* context) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_HASHER);
     }
     context->state = ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED;
+    context->box_ctx.state = ERGO_TX_SERIALIZER_BOX_STATE_FINISHED;
     return ERGO_TX_SERIALIZER_FULL_RES_OK;
 }
 
@@ -297,6 +298,10 @@ ergo_tx_serializer_full_result_e ergo_tx_serializer_full_add_box(
     uint8_t tokens_count,
     uint32_t registers_size) {
     CHECK_PROPER_STATE(context, ERGO_TX_SERIALIZER_FULL_STATE_OUTPUTS_STARTED);
+
+    if (!ergo_tx_serializer_box_is_finished(&context->box_ctx)) {
+        return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_BAD_STATE);
+    }
     if (context->outputs_count == 0) {
         return res_error(context, ERGO_TX_SERIALIZER_FULL_RES_ERR_TOO_MANY_OUTPUTS);
     }
-- 
2.43.0


From bbc6269bc2c1efdf2d02aa676d4c864eda077a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 2/7] fix: compare whole BIP32 path components, not only their
 first bytes

---
 src/common/bip32_ext.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/bip32_ext.h b/src/common/bip32_ext.h
index 9436c99..ed41db4 100644
--- a/src/common/bip32_ext.h
+++ b/src/common/bip32_ext.h
@@ -26,7 +26,7 @@ static inline bool bip32_path_is_equal(const uint32_t *bip32_path_1,
                                        const uint32_t *bip32_path_2,
                                        uint8_t bip32_path_2_len) {
     return bip32_path_1_len == bip32_path_2_len &&
-           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len) == 0;
+           memcmp(bip32_path_1, bip32_path_2, bip32_path_1_len * sizeof(uint32_t)) == 0;
 }
 
 static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
@@ -34,5 +34,5 @@ static inline bool bip32_path_same_account(const uint32_t *bip32_path_1,
                                            const uint32_t *bip32_path_2,
                                            uint8_t bip32_path_2_len) {
     return bip32_path_1_len >= 3 && bip32_path_2_len >= 3 &&
-           memcmp(bip32_path_1, bip32_path_2, 3) == 0;
+           memcmp(bip32_path_1, bip32_path_2, 3 * sizeof(uint32_t)) == 0;
 }
\ No newline at end of file
-- 
2.43.0


From 33ff65623e114aeef642a63fe93ad89af8847e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 3/7] fix: a truncated output token ends the box serializer in
 its error state

---
 src/ergo/tx_ser_box.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ergo/tx_ser_box.c b/src/ergo/tx_ser_box.c
index 656ddf6..bfa77ff 100644
--- a/src/ergo/tx_ser_box.c
+++ b/src/ergo/tx_ser_box.c
@@ -206,7 +206,7 @@ ergo_tx_serializer_box_result_e ergo_tx_serializer_box_add_tokens(
             }
         } else {
             if (!buffer_read_u32(input, &token_id.index, BE)) {
-                return ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX;
+                return res_error(context, ERGO_TX_SERIALIZER_BOX_RES_ERR_BAD_TOKEN_INDEX);
             }
             // index should be inside table
             if (token_id.index >= table->distinct_tokens_count) {
-- 
2.43.0


From d19b01b2ec6297329324e7372a88c5d0142e9d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 4/7] fix: wipe the product with the private key when the
 signature fails

---
 src/ergo/schnorr.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ergo/schnorr.c b/src/ergo/schnorr.c
index b703311..f2a2b9b 100644
--- a/src/ergo/schnorr.c
+++ b/src/ergo/schnorr.c
@@ -103,16 +103,15 @@ bool ergo_secp256k1_schnorr_p2pk_sign_finish(uint8_t signature[static ERGO_SIGNA
     if (cx_math_is_zero(buf, CX_BLAKE2B_256_SIZE)) return false;
 
     // z = c * secret + key
-    if (cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) != 0)
-        return false;
-    if (cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
+    bool result =
+        cx_math_multm_no_throw(buf, buf, secret, PIC(SECP256K1_N), PRIVATE_KEY_LEN) == 0 &&
+        cx_math_addm_no_throw(signature + ERGO_SOUNDNESS_BYTES,
                               key,
                               buf,
                               PIC(SECP256K1_N),
-                              PRIVATE_KEY_LEN) != 0)
-        return false;
+                              PRIVATE_KEY_LEN) == 0;
 
     explicit_bzero(buf, sizeof(buf));
 
-    return true;
+    return result;
 }
-- 
2.43.0


From d576982e036eea5cc2fe28fd53fdba0831a2927a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:43 +0000
Subject: [PATCH 5/7] fix: refuse input frames that declare more tokens than a
 frame can hold

The length of the authenticated part was computed in eight bits, so a
count of six or more tokens wrapped around and only a part of what the
frame declares was authenticated.
---
 src/helpers/input_frame.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/helpers/input_frame.c b/src/helpers/input_frame.c
index 51d3922..fc51e3a 100644
--- a/src/helpers/input_frame.c
+++ b/src/helpers/input_frame.c
@@ -6,6 +6,9 @@ uint8_t input_frame_data_length(const buffer_t* input) {
         return 0;
     }
     uint8_t token_count = buffer_read_ptr(input)[FRAME_TOKEN_COUNT_POSITION];
+    if (token_count > FRAME_MAX_TOKENS_COUNT) {
+        return 0;
+    }
     uint8_t data_len = token_count * FRAME_TOKEN_VALUE_PAIR_SIZE + FRAME_TOKEN_PREFIX_LEN;
     if (!buffer_can_read(input, data_len + INPUT_FRAME_SIGNATURE_LEN)) {
         return 0;
-- 
2.43.0


From 7117a58418ad32eea21b616a51b409e89ea9ad4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:54 +0000
Subject: [PATCH 6/7] fix: reject numbers that do not fit their type when
 decoding VLQ and ZigZag

gve_get_u64 dropped the bits of a tenth group that do not fit 64 bits, and
gve_get_i32 refused the sign-extended form that gve_put_i32 writes.
---
 src/common/gve.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/gve.c b/src/common/gve.c
index 5e60469..f8b4214 100644
--- a/src/common/gve.c
+++ b/src/common/gve.c
@@ -32,7 +32,8 @@ gve_result_e gve_get_i32(buffer_t *buffer, int32_t *val) {
     gve_result_e res;
     *val = 0;
     if ((res = gve_get_u64(buffer, &u64)) != GVE_OK) return res;
-    if (u64 > 0xFFFFFFFFULL) return GVE_ERR_INT_TO_BIG;
+    // gve_put_i32 sign-extends the encoded value to 64 bits
+    if (u64 > 0xFFFFFFFFULL && u64 < 0xFFFFFFFF80000000ULL) return GVE_ERR_INT_TO_BIG;
     *val = zigzag_decode_i32(u64);
     return GVE_OK;
 }
@@ -63,6 +64,8 @@ gve_result_e gve_get_u64(buffer_t *buffer, uint64_t *val) {
     gve_result_e res = GVE_ERR_DATA_SIZE;
     while (shift < 64) {
         if ((res = gve_get_u8(buffer, &byte)) != GVE_OK) break;
+        // only the lowest bit of the last group is left, and nothing can follow it
+        if (shift == 63 && byte > 1) return GVE_ERR_INT_TO_BIG;
         *val |= (uint64_t) (byte & 0x7F) << shift;
         if ((byte & 0x80) == 0) {
             res = GVE_OK;
-- 
2.43.0


From e6b138962300bf8fb097389bf1e63b07998871fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:55 +0000
Subject: [PATCH 7/7] fix: keep the write position of a buffer at or after its
 read position

rw_buffer_seek_write_set and rw_buffer_seek_write_end could move the write
position before the read one, after which the unread length underflows.
---
 src/common/rwbuffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/rwbuffer.c b/src/common/rwbuffer.c
index 686efe9..08fcdfa 100644
--- a/src/common/rwbuffer.c
+++ b/src/common/rwbuffer.c
@@ -7,7 +7,7 @@
 #include "rwbuffer.h"
 
 bool rw_buffer_seek_write_set(rw_buffer_t *buffer, size_t offset) {
-    if (offset > buffer->size) {
+    if (offset > buffer->size || offset < buffer->read.offset) {
         return false;
     }
     buffer->read.size = offset;
@@ -24,7 +24,7 @@ bool rw_buffer_seek_write_cur(rw_buffer_t *buffer, size_t offset) {
 }
 
 bool rw_buffer_seek_write_end(rw_buffer_t *buffer, size_t offset) {
-    if (offset > buffer->size) {
+    if (offset > buffer->size || buffer->size - offset < buffer->read.offset) {
         return false;
     }
     buffer->read.size = buffer->size - offset;
-- 
2.43.0

