From 6c1b54e04504f03291b2cdbaaa4e9995381795f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:32 +0000
Subject: [PATCH 01/24] fix: padding helpers must not realloc the caller's
 buffer (stale pointer, double free, CBC overflow)

---
 src/modes/cbc128.c  | 7 ++++++-
 src/utils/padding.c | 4 ----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index d9c964f..d0b19b1 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -5,7 +5,11 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
     int ret=0,len;
-    unsigned char *afin = (unsigned char *)malloc(inlen*sizeof(unsigned char));
+    unsigned char *padded = (unsigned char *)malloc(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen)*sizeof(unsigned char));
+    unsigned char *afin = padded;
+    if(padded==NULL && inlen!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     len = WBCRYPTO_padding_pkcs7_merge((unsigned char *)in, inlen, afin);
     if(max_olen<len){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
@@ -40,6 +44,7 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
     }
     ret=1;
 cleanup:
+    free(padded);
     return ret;
 }
 
diff --git a/src/utils/padding.c b/src/utils/padding.c
index 14c9609..4477f5d 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -2,7 +2,6 @@
 
 size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -24,7 +23,6 @@ size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsig
 
 size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsigned char *dst){
     int i;
-    dst = (unsigned char *)realloc(dst,WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -46,7 +44,6 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
     int i, pad_num, pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
-    dst = (unsigned char *)realloc(dst, pad_len*sizeof(unsigned char));
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
         dst[i] = src[i];
@@ -66,7 +63,6 @@ size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsign
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
-    dst = (unsigned char *)realloc(dst,afpad_len*sizeof(unsigned char));
     memcpy(dst, src, afpad_len*sizeof(unsigned char));
     return afpad_len;
 }
-- 
2.43.0


From 2e11d2fa3884e21b66f1e945119c082e1f87b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:18 +0000
Subject: [PATCH 02/24] fix: aes short keys read past the key and decryption
 used the encryption schedule

---
 include/wbcrypto/aes.h | 3 ++-
 src/aes/aes.c          | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/wbcrypto/aes.h b/include/wbcrypto/aes.h
index 3f7b958..063c2b9 100644
--- a/include/wbcrypto/aes.h
+++ b/include/wbcrypto/aes.h
@@ -9,7 +9,8 @@ extern "C" {
 #endif
 
     struct aes_context {
-        AES_KEY aes_key;
+        AES_KEY aes_key;        // schedule for encryption
+        AES_KEY aes_dec_key;    // schedule for decryption
     };
 
     typedef struct aes_context WBCRYPTO_aes_context;
diff --git a/src/aes/aes.c b/src/aes/aes.c
index bc77d33..ddd22cc 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -17,10 +17,10 @@ void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
-    keylen = keylen >= 16 ? 16 : keylen;
     uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
-    AES_set_encrypt_key(key, 128, &ctx->aes_key);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);   //Operation after key-padding
+    AES_set_encrypt_key(input_key, 128, &ctx->aes_key);
+    AES_set_decrypt_key(input_key, 128, &ctx->aes_dec_key);
     return 1;
 }
 
@@ -30,6 +30,6 @@ int WBCRYPTO_aes_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_a
 }
 
 int WBCRYPTO_aes_decrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_aes_context *ctx){
-    AES_decrypt(in, out, &ctx->aes_key);
+    AES_decrypt(in, out, &ctx->aes_dec_key);
     return 1;
 }
-- 
2.43.0


From 4dbced3859ad9a3743f24ab3f69d0540788160ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:53 +0000
Subject: [PATCH 03/24] fix: setting a new IV must also reset the AAD length of
 the previous message

---
 src/modes/gcm128.c                | 1 +
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 1 +
 src/wbaes/wbaes_wbgcm_mask_mode.c | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 48b2347..dc65f3c 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -109,6 +109,7 @@ int WBCRYPTO_gcm_setiv(WBCRYPTO_gcm_context *ctx,
     memset( ctx->y,   0x00, sizeof(ctx->y  ) );
     memset( ctx->buf, 0x00, sizeof(ctx->buf) );
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if( len == 12 ) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy( ctx->y, iv, len );   // copy the IV to the top of the 'y' buff
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 5a1455f..ffa6a9d 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -109,6 +109,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_setiv(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 8f1acc0..a9510a8 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -118,6 +118,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_setiv(WBCRYPTO_wbgcm_mask_context *ctx, const unsi
     memset(ctx->y, 0x00, sizeof(ctx->y));
     memset(ctx->buf, 0x00, sizeof(ctx->buf));
     ctx->len = 0;
+    ctx->add_len = 0;
 
     if (len == 12) {                // GCM natively uses a 12-byte, 96-bit IV
         memcpy(ctx->y, iv, len);   // copy the IV to the top of the 'y' buff
-- 
2.43.0


From 4b1d75f1793ccaa9fb178e6a41b6150e14d89cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:53 +0000
Subject: [PATCH 04/24] fix: WBCRYPTO_sm3 returned an indeterminate status

---
 src/sm3/sm3.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sm3/sm3.c b/src/sm3/sm3.c
index c62f685..40f5aa7 100644
--- a/src/sm3/sm3.c
+++ b/src/sm3/sm3.c
@@ -199,5 +199,6 @@ int WBCRYPTO_sm3(const unsigned char *msg, size_t msglen, unsigned char *digest)
     WBCRYPTO_sm3_init(&ctx);
     WBCRYPTO_sm3_update(&ctx, msg, msglen);
     WBCRYPTO_sm3_final(&ctx, digest);
+    return 1;
 }
 
-- 
2.43.0


From f99af6f84b83140347d5bdabed132a572c66764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:20 +0000
Subject: [PATCH 05/24] fix: message lengths of 2 GiB and more were truncated
 to int

---
 src/modes/cbc128.c                |  6 ++++--
 src/modes/gcm128.c                |  6 ++++--
 src/modes/gcm_parallel.c          |  6 ++++--
 src/utils/padding.c               | 16 ++++++++++------
 src/wbaes/wbaes_wbgcm_ee_mode.c   |  4 ++--
 src/wbaes/wbaes_wbgcm_mask_mode.c |  4 ++--
 6 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index d0b19b1..bfcf6cb 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -4,7 +4,8 @@ int WBCRYPTO_cbc128_encrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key, unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len;
     unsigned char *padded = (unsigned char *)malloc(WBCRYPTO_padding_pkcs7_merge_length((unsigned char *)in, inlen)*sizeof(unsigned char));
     unsigned char *afin = padded;
     if(padded==NULL && inlen!=0){
@@ -52,7 +53,8 @@ int WBCRYPTO_cbc128_decrypt(const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t max_olen, size_t *use_olen,
                             const void *key,unsigned char ivec[16], block128_f block)
 {
-    int ret=0,len;
+    int ret=0;
+    size_t len;
     if(max_olen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index dc65f3c..60944de 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -163,7 +163,8 @@ cleanup:
 int WBCRYPTO_gcm_encrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -212,7 +213,8 @@ cleanup:
 int WBCRYPTO_gcm_decrypt(WBCRYPTO_gcm_context *ctx,
                             const unsigned char *in, size_t inlen,
                             unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 84fb451..4acccd7 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -4,7 +4,8 @@
 int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -71,7 +72,8 @@ cleanup:
 int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
                          const unsigned char *in, size_t inlen,
                          unsigned char *out, size_t outlen){
-    int ret=0, len;            // our error return if the AES encrypt fails
+    int ret=0;            // our error return if the AES encrypt fails
+    size_t len;
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
diff --git a/src/utils/padding.c b/src/utils/padding.c
index 4477f5d..46e9d17 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -1,7 +1,8 @@
 #include <wbcrypto/utils.h>
 
 size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsigned char *dst){
-    int i, pad_num;
+    size_t i;
+    int pad_num;
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -22,7 +23,7 @@ size_t WBCRYPTO_key_padding_pkcs7(const unsigned char *src, size_t srclen, unsig
 }
 
 size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsigned char *dst){
-    int i;
+    size_t i;
     memset(dst, 0, WBCRYPTO_PADDING_NUM*sizeof(unsigned char));
     if(srclen>WBCRYPTO_PADDING_NUM){
         for(i=0;i<WBCRYPTO_PADDING_NUM;i++) {
@@ -42,7 +43,8 @@ size_t WBCRYPTO_key_padding_zeros(const unsigned char *src, size_t srclen, unsig
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned char *dst){
-    int i, pad_num, pad_len;
+    size_t i, pad_len;
+    int pad_num;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     memset(dst, 0, pad_len*sizeof(unsigned char));
     for(i=0;i<srclen;i++) {
@@ -58,7 +60,8 @@ size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst){
-    int pad_num = (int)src[srclen-1], afpad_len;
+    int pad_num = (int)src[srclen-1];
+    size_t afpad_len;
     if(pad_num > 16 || pad_num < 0){
         pad_num = 0;
     }
@@ -68,13 +71,14 @@ size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsign
 }
 
 size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
-    int pad_len;
+    size_t pad_len;
     pad_len = (srclen % 16 == 0)?srclen:((srclen/16)+1) *16;
     return pad_len;
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen){
-    int pad_num = src[srclen-1], afpad_len;
+    int pad_num = src[srclen-1];
+    size_t afpad_len;
     if(pad_num > 16 || pad_num < 0){
         pad_num = 0;
     }
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index ffa6a9d..3b52d2c 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -156,7 +156,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_aad(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned c
 int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return -1;
     } else {
@@ -206,7 +206,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     const unsigned char *in, size_t inlen,
                                     unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return -1;
     } else {
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index a9510a8..e9d2ca7 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -169,7 +169,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_aad(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return -1;
     } else {
@@ -224,7 +224,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
 int WBCRYPTO_wbaes_wbgcm_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       const unsigned char *in, size_t inlen,
                                       unsigned char *out, size_t outlen) {
-    int len;            // our error return if the AES encrypt fails
+    size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
         return -1;
     } else {
-- 
2.43.0


From fd0dcfc41e34d0a81ea5d2fa8d12ce1bc957df26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:37 +0000
Subject: [PATCH 06/24] fix: CBC decryption and unpadding read outside the
 input for lengths that are no multiple of 16

---
 src/modes/cbc128.c  |  2 ++
 src/utils/padding.c | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/modes/cbc128.c b/src/modes/cbc128.c
index bfcf6cb..99b77f9 100644
--- a/src/modes/cbc128.c
+++ b/src/modes/cbc128.c
@@ -57,6 +57,8 @@ int WBCRYPTO_cbc128_decrypt(const unsigned char *in, size_t inlen,
     size_t len;
     if(max_olen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
+    }else if(inlen%16!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_cbc128_decrypt",WBCRYPTO_ERR_INBLOCK_SIZE_WARN);
     }else{
         len=inlen;
     }
diff --git a/src/utils/padding.c b/src/utils/padding.c
index 46e9d17..6795f8e 100644
--- a/src/utils/padding.c
+++ b/src/utils/padding.c
@@ -60,9 +60,12 @@ size_t WBCRYPTO_padding_pkcs7_merge(unsigned char *src, size_t srclen, unsigned
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate(unsigned char *src, size_t srclen, unsigned char *dst){
+    if(srclen == 0){
+        return 0;
+    }
     int pad_num = (int)src[srclen-1];
     size_t afpad_len;
-    if(pad_num > 16 || pad_num < 0){
+    if(pad_num > 16 || pad_num < 0 || pad_num > srclen){
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
@@ -77,9 +80,12 @@ size_t WBCRYPTO_padding_pkcs7_merge_length(unsigned char *src, size_t srclen){
 }
 
 size_t WBCRYPTO_padding_pkcs7_separate_length(unsigned char *src, size_t srclen){
+    if(srclen == 0){
+        return 0;
+    }
     int pad_num = src[srclen-1];
     size_t afpad_len;
-    if(pad_num > 16 || pad_num < 0){
+    if(pad_num > 16 || pad_num < 0 || pad_num > srclen){
         pad_num = 0;
     }
     afpad_len = srclen - pad_num;
-- 
2.43.0


From e9d7dec94aa26df502fc51851fcff051aadced62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:16 +0000
Subject: [PATCH 07/24] fix: white-box GCM reported a too small output buffer
 as -1 instead of 0, and free/init error paths

---
 src/modes/gcm128.c                | 1 +
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 6 +++---
 src/wbaes/wbaes_wbgcm_mask_mode.c | 6 +++---
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 60944de..dcd3cfb 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -91,6 +91,7 @@ WBCRYPTO_gcm_context *WBCRYPTO_gcm_init(void *key, block128_f block)
     }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 3b52d2c..1d5d48f 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -158,7 +158,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     unsigned char *out, size_t outlen) {
     size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
@@ -208,7 +208,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx,
                                     unsigned char *out, size_t outlen) {
     size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
@@ -285,8 +285,8 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 }
 
 void WBCRYPTO_wbaes_wbgcm_ee_free(WBCRYPTO_wbgcm_ee_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_ee_context));
     if (ctx != NULL) {
+        memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_ee_context));
         free(ctx);
         ctx = NULL;
     }
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index e9d2ca7..54cfeeb 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -171,7 +171,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       unsigned char *out, size_t outlen) {
     size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
@@ -226,7 +226,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx,
                                       unsigned char *out, size_t outlen) {
     size_t len;         // our error return if the AES encrypt fails
     if (outlen < inlen) {
-        return -1;
+        return 0;
     } else {
         len = inlen;
     }
@@ -308,8 +308,8 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 }
 
 void WBCRYPTO_wbaes_wbgcm_mask_free(WBCRYPTO_wbgcm_mask_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_mask_context));
     if (ctx != NULL) {
+        memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_mask_context));
         free(ctx);
         ctx = NULL;
     }
-- 
2.43.0


From 004e5f4aa4dc77722d71b39a546b54ff0d485595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:01 +0000
Subject: [PATCH 08/24] fix: white-box GCM (mask): encryption and decryption
 contexts computed different tags for the same message

---
 src/wbaes/wbaes_wbgcm_mask_mode.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index 54cfeeb..d8ae005 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -287,21 +287,26 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
-        memset(work_buf, 0x00, 16);
+    memset(work_buf, 0x00, 16);
 
-        PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
-        PUT_UINT32_BE((orig_add_len), work_buf, 4);
-        PUT_UINT32_BE((orig_len >> 32), work_buf, 8);
-        PUT_UINT32_BE((orig_len), work_buf, 12);
+    PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
+    PUT_UINT32_BE((orig_add_len), work_buf, 4);
+    PUT_UINT32_BE((orig_len >> 32), work_buf, 8);
+    PUT_UINT32_BE((orig_len), work_buf, 12);
 
-        for (i = 0; i < 16; i++) ctx->buf[i] ^= work_buf[i];
-        wbgcm_mult(ctx, ctx->buf, ctx->buf);
+    for (i = 0; i < 16; i++) ctx->buf[i] ^= work_buf[i];
+    wbgcm_mult(ctx, ctx->buf, ctx->buf);
 
-        for (i = 0; i < len; i++) {
-            buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
+    for (i = 0; i < len; i++) {
+        buff_change[i] = ctx->buf[i];
+        if (!key->encMode) { //dec mode: GBOX_TypeI expects a masked byte
+            buff_change[i] = MatMulNumM8(key->L1[i], buff_change[i]);
+        }
+        buff_change[i] = key->GBOX_TypeI[i][buff_change[i]];
 //            tag[i] ^= ctx->buf[i];
-            tag[i] = key->GBOX_TypeIII[i][buff_change[i]][tag[i]];
+        tag[i] = key->GBOX_TypeIII[i][buff_change[i]][tag[i]];
+        if (key->encMode) { //enc mode: GBOX_TypeIII yields a masked byte
+            tag[i] = MatMulNumM8(key->L1[i], tag[i]);
         }
     }
     return 1;
-- 
2.43.0


From a3b901927732bb504cae632aac7b248f37480de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:20 +0000
Subject: [PATCH 09/24] fix: file decryption never verified the tag; file I/O
 failures and short files went unnoticed

---
 src/modes/gcmfile.c               | 95 ++++++++++++++++++++-----------
 src/wbaes/wbaes_wbgcm_ee_file.c   | 89 ++++++++++++++++++-----------
 src/wbaes/wbaes_wbgcm_mask_file.c | 89 ++++++++++++++++++-----------
 3 files changed, 176 insertions(+), 97 deletions(-)

diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index bc27395..b6b3d77 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -5,10 +5,14 @@ WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
     if (ctx == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_init", WBCRYPTO_ERR_ALLOC_FAILED);
     }
-    memset(ctx->tag, 0, sizeof(WBCRYPTO_GCM_FILE_TAG_LEN));
+    memset(ctx->tag, 0, WBCRYPTO_GCM_FILE_TAG_LEN);
     ctx->gcm = WBCRYPTO_gcm_init(key, block);
+    if (ctx->gcm == NULL) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_init", WBCRYPTO_ERR_CALCULATE_ERROR);
+    }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
@@ -34,12 +38,15 @@ cleanup:
 
 int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
-    FILE *infp, *tmpfp, *outfp;
+    size_t len_outfpath, file_size, read_size = 0, block_size;
+    long file_end;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
@@ -58,82 +65,94 @@ int WBCRYPTO_gcmfile_encrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
+    if (fseek(infp, 0, SEEK_END) != 0 || (file_end = ftell(infp)) < 0 || fseek(infp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+    file_size = file_end;
     memset(size_buf, 0, sizeof(size_t));
     memcpy(size_buf, &file_size, sizeof(size_t));
-    fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_encrypt(ctx->gcm, buf, block_size, out, block_size));
+        read_size += block_size;
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(infp) || read_size != file_size)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
-    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN));
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #2 Write cipher file
     // add tag
-    fwrite(&ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(&ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(tmpfp) || fflush(outfp) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL)
+        fclose(infp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
+    if (outfp != NULL)
+        fclose(outfp);
     free(tmp_file_path);
     return ret;
 }
 
 int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
+    size_t file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
-    memset(flag, 0, sizeof(flag));
+    unsigned char file_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
 
     //read tag
-    if (fread(ctx->tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(file_tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
-                        | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
-                        | ((size_buf[0] & 0xff) << 0)));
+    memcpy(&file_size, size_buf, sizeof(size_t));
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
@@ -144,30 +163,40 @@ int WBCRYPTO_gcmfile_decrypt(WBCRYPTO_gcmfile_context *ctx, char *infpath, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_decrypt(ctx->gcm, buf, block_size, out, block_size));
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size) {
+            WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_IO);
+        }
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    // Tag of the content read must be the stored one
+    WBCRYPTO_MPI_CHK(WBCRYPTO_gcm_finish(ctx->gcm, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN));
+    if (memcmp(file_tag, ctx->tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcmfile_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL)
+        fclose(outfp);
     return ret;
 }
 
diff --git a/src/wbaes/wbaes_wbgcm_ee_file.c b/src/wbaes/wbaes_wbgcm_ee_file.c
index d432370..1baa399 100644
--- a/src/wbaes/wbaes_wbgcm_ee_file.c
+++ b/src/wbaes/wbaes_wbgcm_ee_file.c
@@ -2,13 +2,16 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    size_t len_outfpath, file_size, read_size = 0, block_size;
+    long file_end;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
@@ -27,83 +30,95 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_encrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
+    if (fseek(infp, 0, SEEK_END) != 0 || (file_end = ftell(infp)) < 0 || fseek(infp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+    file_size = file_end;
     memset(size_buf, 0, sizeof(size_t));
     memcpy(size_buf, &file_size, sizeof(size_t));
-    fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_ee_encrypt(ctx, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_encrypt(ctx, buf, block_size, out, block_size));
+        read_size += block_size;
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(infp) || read_size != file_size)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
-    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN));
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #2 Write cipher file
     // add tag
-    fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(tmpfp) || fflush(outfp) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL)
+        fclose(infp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
+    if (outfp != NULL)
+        fclose(outfp);
     free(tmp_file_path);
     return ret;
 }
 
 int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
+    size_t file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
-    memset(flag, 0, sizeof(flag));
+    unsigned char file_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
 
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(file_tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
-                        | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
-                        | ((size_buf[0] & 0xff) << 0)));
+    memcpy(&file_size, size_buf, sizeof(size_t));
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
@@ -114,29 +129,39 @@ int WBCRYPTO_wbaes_wbgcmfile_ee_decrypt(WBCRYPTO_wbgcm_ee_context *ctx, char *in
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_ee_decrypt(ctx, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_decrypt(ctx, buf, block_size, out, block_size));
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size) {
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_IO);
+        }
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    // Tag of the content read must be the stored one
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_ee_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN));
+    if (memcmp(file_tag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_ee_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL)
+        fclose(outfp);
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbaes/wbaes_wbgcm_mask_file.c b/src/wbaes/wbaes_wbgcm_mask_file.c
index 94cc621..1a39b85 100644
--- a/src/wbaes/wbaes_wbgcm_mask_file.c
+++ b/src/wbaes/wbaes_wbgcm_mask_file.c
@@ -2,13 +2,16 @@
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int len_outfpath, file_size, block_size;
+    size_t len_outfpath, file_size, read_size = 0, block_size;
+    long file_end;
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *tmpfp, *outfp;
+    FILE *infp = NULL, *tmpfp = NULL, *outfp = NULL;
 
     // #0 Open file
     len_outfpath = strlen(outfpath);
     char *tmp_file_path = (char *) malloc((len_outfpath + 5) * sizeof(char));
+    if (tmp_file_path == NULL)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_ALLOC_FAILED);
     memcpy(tmp_file_path, outfpath, len_outfpath);
     memcpy(tmp_file_path + len_outfpath, ".tmp", 5);
 
@@ -27,83 +30,95 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_encrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
 
     // Get size of file
-    fseek(infp, 0, SEEK_END);
-    file_size = ftell(infp);
+    if (fseek(infp, 0, SEEK_END) != 0 || (file_end = ftell(infp)) < 0 || fseek(infp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+    file_size = file_end;
     memset(size_buf, 0, sizeof(size_t));
     memcpy(size_buf, &file_size, sizeof(size_t));
-    fseek(infp, 0, SEEK_SET);
 
     // GCM Block encrypt
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_mask_encrypt(ctx, buf, block_size, out, block_size);
-        fwrite(out, sizeof(unsigned char), block_size, tmpfp);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_encrypt(ctx, buf, block_size, out, block_size));
+        read_size += block_size;
+        if (fwrite(out, sizeof(unsigned char), block_size, tmpfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(infp) || read_size != file_size)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     // Get Tag of GCM encrypt
-    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN));
 
     // Finish encrypt
-    fflush(tmpfp);
-    fseek(tmpfp, 0, SEEK_SET);
-    fclose(infp);
+    if (fflush(tmpfp) != 0 || fseek(tmpfp, 0, SEEK_SET) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
 
     // #2 Write cipher file
     // add tag
-    fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp);
+    if (fwrite(&tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, outfp) != WBCRYPTO_GCM_FILE_TAG_LEN)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // add file len
-    fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp);
+    if (fwrite(size_buf, sizeof(unsigned char), sizeof(size_t), outfp) != sizeof(size_t))
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
     // copy cipher
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, tmpfp)) &&
             block_size != 0
             ) {
-        fwrite(buf, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(buf, sizeof(unsigned char), block_size, outfp) != block_size)
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
+    if (ferror(tmpfp) || fflush(outfp) != 0)
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_encrypt", WBCRYPTO_ERR_FILE_IO);
+
     ret = 1;
 cleanup:
-    fclose(tmpfp);
-    fclose(outfp);
-    remove(tmp_file_path);
+    if (infp != NULL)
+        fclose(infp);
+    if (tmpfp != NULL) {
+        fclose(tmpfp);
+        remove(tmp_file_path);
+    }
+    if (outfp != NULL)
+        fclose(outfp);
     free(tmp_file_path);
     return ret;
 }
 
 int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char *infpath, char *outfpath) {
     int ret = 0;
-    int file_size = 0, read_size = 0, block_size;
+    size_t file_size = 0, read_size = 0, block_size;
     unsigned char size_buf[sizeof(size_t)];
     unsigned char tag[WBCRYPTO_GCM_FILE_TAG_LEN];
-    FILE *infp, *outfp;
+    FILE *infp = NULL, *outfp = NULL;
 
     if ((infp = fopen(infpath, "rb")) == NULL) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_NULL_PARAM);
     }
 
-    char flag[WBCRYPTO_GCM_FILE_TAG_LEN + 1];
-    memset(flag, 0, sizeof(flag));
+    unsigned char file_tag[WBCRYPTO_GCM_FILE_TAG_LEN];
 
     //read tag
-    if (fread(tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) == 0) {
+    if (fread(file_tag, sizeof(unsigned char), WBCRYPTO_GCM_FILE_TAG_LEN, infp) != WBCRYPTO_GCM_FILE_TAG_LEN) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
     }
 
     memset(size_buf, 0, sizeof(size_t));
     // read real length
-    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) == 0) {
+    if (fread(size_buf, sizeof(unsigned char), sizeof(size_t), infp) != sizeof(size_t)) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
-    file_size = (int) ((((size_buf[3] & 0xff) << 24)
-                        | ((size_buf[2] & 0xff) << 16) | ((size_buf[1] & 0xff) << 8)
-                        | ((size_buf[0] & 0xff) << 0)));
+    memcpy(&file_size, size_buf, sizeof(size_t));
 
     // Write Plaintext
     if ((outfp = fopen(outfpath, "wb+")) == NULL) {
@@ -114,29 +129,39 @@ int WBCRYPTO_wbaes_wbgcmfile_mask_decrypt(WBCRYPTO_wbgcm_mask_context *ctx, char
     unsigned char out[WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN];
     memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
-    WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN);
 
     while (
             (block_size = fread(buf, sizeof(unsigned char), WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN, infp)) &&
             block_size != 0
             ) {
-        WBCRYPTO_wbaes_wbgcm_mask_decrypt(ctx, buf, block_size, out, block_size);
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_decrypt(ctx, buf, block_size, out, block_size));
         read_size += block_size;
-        fwrite(out, sizeof(unsigned char), block_size, outfp);
+        if (fwrite(out, sizeof(unsigned char), block_size, outfp) != block_size) {
+            WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_IO);
+        }
 
         memset(buf, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
         memset(out, 0, WBCRYPTO_GCM_FILE_MAX_BLOCK_LEN);
     }
 
-    fflush(outfp);
+    if (ferror(infp) || fflush(outfp) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_IO);
+    }
     // Invalid file
     if (read_size != file_size) {
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_FILE_SIZE_WRONG);
     }
+    // Tag of the content read must be the stored one
+    WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_wbgcm_mask_finish(ctx, tag, WBCRYPTO_GCM_FILE_TAG_LEN));
+    if (memcmp(file_tag, tag, WBCRYPTO_GCM_FILE_TAG_LEN) != 0) {
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbaes_wbgcmfile_mask_decrypt", WBCRYPTO_ERR_ENCFILE_MODEIFIED);
+    }
 
     ret = 1;
 cleanup:
-    fclose(infp);
-    fclose(outfp);
+    if (infp != NULL)
+        fclose(infp);
+    if (outfp != NULL)
+        fclose(outfp);
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From b9f16c24d413bc396804bf85654c247eea3c3bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:53 +0000
Subject: [PATCH 10/24] fix: parallel GCM raced on a shared loop counter,
 hashed the plaintext when decrypting, leaked, and ignored block failures

---
 src/modes/gcm_parallel.c | 74 ++++++++++++++++++++++++++--------------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/modes/gcm_parallel.c b/src/modes/gcm_parallel.c
index 4acccd7..dc2de6c 100644
--- a/src/modes/gcm_parallel.c
+++ b/src/modes/gcm_parallel.c
@@ -6,6 +6,8 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
                          unsigned char *out, size_t outlen){
     int ret=0;            // our error return if the AES encrypt fails
     size_t len;
+    int failed=0;              // set when the block function fails in any thread
+    unsigned char *y_arr=NULL; // counter blocks
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -17,24 +19,26 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len - 1) / 16 + 1;
+    size_t len_s = (len + 15) / 16;
     //pretreatment
-    unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
+    y_arr = (unsigned char *)malloc(len_s != 0 ? 16 * len_s : 1);
+    if (y_arr == NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_encrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     for (i = 0; i < len_s; i++)
     {
-        y_arr[i] = (unsigned char *)malloc(sizeof(unsigned char) * 16);
         for (j = 16; j > 12; j--)
             if (++ctx->y[j - 1] != 0)
                 break;
         for (j = 0; j < 16; j++)
-            y_arr[i][j] = ctx->y[j];
+            y_arr[16 * i + j] = ctx->y[j];
     }
     //able to parallel
 //    int threads_num = omp_get_max_threads();
     omp_set_num_threads(4);
 #pragma omp parallel
     {
-#pragma omp for
+#pragma omp for private(j) reduction(|:failed)
         for (i = 0; i < len_s; i++)
         {
             unsigned char ectr[16];
@@ -43,13 +47,19 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
             {
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
-            (*block)(y_arr[i], ectr, key);
+            if ((*block)(y_arr + 16 * i, ectr, key) == 0)
+            {
+                failed |= 1;
+                continue;
+            }
             for (j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
             }
         }
     }
+    if (failed)
+        goto cleanup;
     //unable to parallel
     for (i = 0; i < len_s; i++)
     {
@@ -66,6 +76,7 @@ int WBCRYPTO_gcm_parallel_encrypt(WBCRYPTO_gcm_context *ctx,
     }
     ret=1;
 cleanup:
+    free(y_arr);
     return ret;
 }
 
@@ -74,6 +85,8 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
                          unsigned char *out, size_t outlen){
     int ret=0;            // our error return if the AES encrypt fails
     size_t len;
+    int failed=0;              // set when the block function fails in any thread
+    unsigned char *y_arr=NULL; // counter blocks
     if(outlen<inlen){
         WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_INLEN_THAN_OUTLEN);
     }else{
@@ -85,24 +98,40 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
 
     ctx->len += len; // bump the GCM context's running length count
 
-    size_t len_s = (len - 1) / 16 + 1;
+    size_t len_s = (len + 15) / 16;
     //pretreatment
-    unsigned char **y_arr = (unsigned char **)malloc(sizeof(unsigned char *) * len_s);
+    y_arr = (unsigned char *)malloc(len_s != 0 ? 16 * len_s : 1);
+    if (y_arr == NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_gcm_decrypt",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     for (i = 0; i < len_s; i++)
     {
-        y_arr[i] = (unsigned char *)malloc(sizeof(unsigned char) * 16);
         for (j = 16; j > 12; j--)
             if (++ctx->y[j - 1] != 0)
                 break;
         for (j = 0; j < 16; j++)
-            y_arr[i][j] = ctx->y[j];
+            y_arr[16 * i + j] = ctx->y[j];
+    }
+    //unable to parallel (before the output may overwrite the input)
+    for (i = 0; i < len_s; i++)
+    {
+        size_t use_len = 16;
+        if (i == (len_s - 1))
+        {
+            use_len = (len % 16 == 0) ? 16 : len % 16;
+        }
+        for (j = 0; j < use_len; j++)
+        {
+            ctx->buf[j] ^= in[16 * i + j];
+        }
+        gcm_mult(ctx, ctx->buf, ctx->buf);
     }
     //able to parallel
 //    int threads_num = omp_get_max_threads();
     omp_set_num_threads(4);
 #pragma omp parallel
     {
-#pragma omp for
+#pragma omp for private(j) reduction(|:failed)
         for (i = 0; i < len_s; i++)
         {
             unsigned char ectr[16];
@@ -111,28 +140,21 @@ int WBCRYPTO_gcm_parallel_decrypt(WBCRYPTO_gcm_context *ctx,
             {
                 use_len = (len % 16 == 0) ? 16 : len % 16;
             }
-            (*block)(y_arr[i], ectr, key);
+            if ((*block)(y_arr + 16 * i, ectr, key) == 0)
+            {
+                failed |= 1;
+                continue;
+            }
             for (j = 0; j < use_len; j++)
             {
                 out[16 * i + j] = (unsigned char)(ectr[j] ^ in[16 * i + j]);
             }
         }
     }
-    //unable to parallel
-    for (i = 0; i < len_s; i++)
-    {
-        size_t use_len = 16;
-        if (i == (len_s - 1))
-        {
-            use_len = (len % 16 == 0) ? 16 : len % 16;
-        }
-        for (j = 0; j < use_len; j++)
-        {
-            ctx->buf[j] ^= out[16 * i + j];
-        }
-        gcm_mult(ctx, ctx->buf, ctx->buf);
-    }
+    if (failed)
+        goto cleanup;
     ret=1;
 cleanup:
+    free(y_arr);
     return ret;
 }
\ No newline at end of file
-- 
2.43.0


From bd73d0de3ebd65c2684226172d66a71ee262c44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:16 +0000
Subject: [PATCH 11/24] fix: key files: closed NULL streams, ignored short
 reads and writes, trusted the stored round count

---
 src/utils/keystore.c    | 20 ++++++++++++++------
 src/wbsm4/wbsm4_exkey.c | 34 ++++++++++++++++++++++++++--------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/utils/keystore.c b/src/utils/keystore.c
index f84ecfa..f0c75d8 100644
--- a/src/utils/keystore.c
+++ b/src/utils/keystore.c
@@ -2,28 +2,36 @@
 
 int WBCRYPTO_keystore_file_to_key(void *ctx, size_t ctx_len, char *fpath){
     int ret=0;
-    FILE *rkey;
+    FILE *rkey=NULL;
 
     if((rkey = fopen(fpath,"rb"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_FILE_IO);
     }
-    fread(ctx , ctx_len, 1, rkey);
+    if(fread(ctx , ctx_len, 1, rkey)!=1){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_file_to_key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey!=NULL){
+        fclose(rkey);
+    }
     return ret;
 }
 
 int WBCRYPTO_keystore_key_to_file(const void *ctx, size_t ctx_len, char *fpath){
     int ret=0;
-    FILE *wkey;
+    FILE *wkey=NULL;
 
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
     }
-    fwrite( ctx, ctx_len, 1, wkey);
+    if(fwrite( ctx, ctx_len, 1, wkey)!=1 || fflush(wkey)!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_keystore_key_to_file",WBCRYPTO_ERR_FILE_IO);
+    }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey!=NULL){
+        fclose(wkey);
+    }
     return ret;
 }
\ No newline at end of file
diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 006338a..90936fb 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -2,13 +2,15 @@
 
 int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
-    FILE *wkey;
+    FILE *wkey=NULL;
     int i,j,k,l;
 
     if((wkey = fopen(fpath,"wb+"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_FILE_IO);
     }
-    fputs("DummyRound-WBSM4", wkey);
+    if(fputs("DummyRound-WBSM4", wkey)==EOF){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_FILE_IO);
+    }
     if(!fwrite(&ctx->rounds, sizeof(int), 1, wkey)
         ||!fwrite(&ctx->encmode, sizeof(int), 1, wkey)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_READ_BAD_FILE);
@@ -41,30 +43,41 @@ int WBCRYPTO_wbsm4_key2file(const WBCRYPTO_wbsm4_context *ctx, char *fpath){
             }
         }
     }
+    if(fflush(wkey)!=0){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2file",WBCRYPTO_ERR_FILE_IO);
+    }
     ret=1;
 cleanup:
-    fclose(wkey);
+    if(wkey!=NULL){
+        fclose(wkey);
+    }
     return ret;
 }
 
 int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     int ret=0;
-    FILE *rkey;
+    FILE *rkey=NULL;
     int i,j,k,l;
+    int rounds;
 
     if((rkey = fopen(fpath,"rb"))==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_FILE_IO);
     }
     char algname[17];
     memset(algname, 0, sizeof(algname));
-    fgets(algname, 17, rkey);
-    if(strcmp(algname, "DummyRound-WBSM4")!=0){
+    if(fgets(algname, 17, rkey)==NULL
+       ||strcmp(algname, "DummyRound-WBSM4")!=0){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
-    if(!fread(&ctx->rounds, sizeof(int), 1, rkey)
+    if(!fread(&rounds, sizeof(int), 1, rkey)
        ||!fread(&ctx->encmode, sizeof(int), 1, rkey)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
+    // the tables of ctx have room for ctx->rounds rounds
+    if(rounds < 32 || rounds > ctx->rounds){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
+    ctx->rounds = rounds;
     for (i = 0;  i< ctx->rounds; i++) {
         for (j = 0;  j<3 ; j++) {
             for (k = 0;  k<4 ; k++) {
@@ -95,7 +108,9 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
     }
     ret=1;
 cleanup:
-    fclose(rkey);
+    if(rkey!=NULL){
+        fclose(rkey);
+    }
     return ret;
 }
 
@@ -106,6 +121,9 @@ int WBCRYPTO_wbsm4_key2bytes(const WBCRYPTO_wbsm4_context *ctx, char **kstream){
     ks_len = sizeof(struct wbsm4_context);
     ks_len += sizeof(uint32_t);
     *kstream = malloc(ks_len);
+    if(*kstream==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2bytes",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
     *((uint32_t *)*kstream) = ks_len;
     uint8_t* ds  = *kstream + sizeof(uint32_t);
     memcpy(ds, ctx, sizeof(struct wbsm4_context));
-- 
2.43.0


From 08b330fac0e62bb8e5adf3bd2b31e1e8044d73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:59 +0000
Subject: [PATCH 12/24] fix: FF3 read past tweaks shorter than 8 (gmac: 16)
 bytes; FPE init leaked on failure

---
 src/fpe/init.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fpe/init.c b/src/fpe/init.c
index 7e21f6e..ad2e7db 100644
--- a/src/fpe/init.c
+++ b/src/fpe/init.c
@@ -16,10 +16,17 @@ WBCRYPTO_fpe_context *WBCRYPTO_fpe_init(const uint8_t *tweak, size_t twklen, uns
     ctx->block = block;
     ctx->radix = radix;
     ctx->tweaklen = twklen;
-    ctx->tweak = (unsigned char *) malloc(twklen);
-    memcpy(ctx->tweak, tweak, twklen);
+    // FF3 takes 8 bytes of tweak and FF3-gmac 16: a shorter tweak is extended with zeros
+    ctx->tweak = (unsigned char *) calloc(twklen < 16 ? 16 : twklen, 1);
+    if (!ctx->tweak) {
+        goto cleanup;
+    }
+    if (twklen != 0) {
+        memcpy(ctx->tweak, tweak, twklen);
+    }
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
@@ -42,8 +49,13 @@ WBCRYPTO_fpe_mac_context *WBCRYPTO_fpe_mac_init(const uint8_t *tweak, size_t twk
         goto cleanup;
     }
     ctx->fpe_ctx = WBCRYPTO_fpe_init(tweak, twklen, radix, cipher_ctx, block);
+    if (!ctx->fpe_ctx) {
+        goto cleanup;
+    }
+    memset(ctx->tag, 0, sizeof(ctx->tag));
     return ctx;
 cleanup:
+    free(ctx);
     return NULL;
 }
 
-- 
2.43.0


From e34d237b0884a7fcf1f17831ca2aa35426c7fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:59 +0000
Subject: [PATCH 13/24] fix: FPE accepted characters outside the radix (heap
 overflow), ignored block cipher failures, and FF1-cmac tags used
 uninitialised data

---
 src/fpe/ff1.c      | 42 ++++++++++++++++++++----------
 src/fpe/ff1_cmac.c | 64 ++++++++++++++++++++++++++++++----------------
 src/fpe/ff3.c      | 28 ++++++++++++++------
 src/fpe/ff3_gmac.c | 32 +++++++++++++++--------
 src/fpe/fpe_locl.c | 16 ++++++++----
 src/fpe/fpe_locl.h |  2 +-
 6 files changed, 124 insertions(+), 60 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index c736995..27d5332 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -10,6 +10,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
 
     union {
         long one;
@@ -17,8 +18,10 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     } is_endian = {1};
 
     unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    unsigned int in[inlen + 1], out[inlen + 1];
+    if (inlen < 2 || !map_chars(input, in, ctx->radix)) {
+        goto cleanup;
+    }
 
     memcpy(out, in, inlen << 2);
     int u = floor2(inlen, 1);
@@ -33,7 +36,8 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int pad = ((-ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
 
     // initialize P
     P[0] = 0x1;
@@ -68,7 +72,10 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (Q == NULL || Bytes == NULL || S == NULL) {
+        goto cleanup;
+    }
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
         int m = (i & 1) ? v : u;
@@ -84,14 +91,14 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
         // ii PRF(P || Q), P is always 16 bytes long
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->block)(P, R, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, R, ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->block)(Ri, R, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(Ri, R, ctx->cipher_ctx));
             Qi += 16;
         }
 
@@ -114,7 +121,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->block)(tmp, SS, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(tmp, SS, ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             assert(16 + 16 * j <= Slen);
             memcpy(S + 16 * j, SS, 16);
@@ -162,6 +169,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
 
     union {
         long one;
@@ -169,8 +177,10 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     } is_endian = {1};
 
     unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    unsigned int in[inlen + 1], out[inlen + 1];
+    if (inlen < 2 || !map_chars(input, in, ctx->radix)) {
+        goto cleanup;
+    }
 
     memcpy(out, in, inlen << 2);
     int u = floor2(inlen, 1);
@@ -185,7 +195,8 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int pad = ((-ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
     // initialize P
     P[0] = 0x1;
     P[1] = 0x2;
@@ -219,7 +230,10 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (Q == NULL || Bytes == NULL || S == NULL) {
+        goto cleanup;
+    }
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
         int m = (i & 1) ? v : u;
@@ -235,14 +249,14 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         // ii PRF(P || Q)
         memset(R, 0x00, sizeof(R));
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->block)(P, R, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, R, ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->block)(Ri, R, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(Ri, R, ctx->cipher_ctx));
             Qi += 16;
         }
 
@@ -264,7 +278,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->block)(tmp, SS, ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->block)(tmp, SS, ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             memcpy(S + 16 * j, SS, 16);
         }
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 2785a3d..67a03f4 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -12,9 +12,10 @@ void left_shift_buffer(uint8_t *input, uint8_t *output, uint8_t length) {
     }
 }
 
-void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t *K2) {
+int generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t *K2) {
+    int ret = 0;
     char msg[16] = {0x00};
-    (*ctx->fpe_ctx->block)(msg, K2, ctx->fpe_ctx->cipher_ctx);
+    WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(msg, K2, ctx->fpe_ctx->cipher_ctx));
 
     left_shift_buffer(K2, K1, 16);
     if (K2[0] & 0x80) {
@@ -25,6 +26,9 @@ void generate_cmac_sub_keys(WBCRYPTO_fpe_mac_context *ctx, uint8_t *K1, uint8_t
     if (K1[0] & 0x80) {
         K2[15] = K2[15] ^ 0x87;
     }
+    ret = 1;
+cleanup:
+    return ret;
 }
 
 int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input, char *output) {
@@ -36,6 +40,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
 
     union {
         long one;
@@ -43,8 +48,10 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     } is_endian = {1};
 
     unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    unsigned int in[inlen + 1], out[inlen + 1];
+    if (inlen < 2 || !map_chars(input, in, ctx->fpe_ctx->radix)) {
+        goto cleanup;
+    }
 
     memcpy(out, in, inlen << 2);
     int u = floor2(inlen, 1);
@@ -59,7 +66,8 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int pad = ((-ctx->fpe_ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->fpe_ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
 
     // initialize P
     P[0] = 0x1;
@@ -93,13 +101,16 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-    generate_cmac_sub_keys(ctx, K1, K2);
+    WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     uint8_t mac[16] = {0};
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (Q == NULL || Bytes == NULL || S == NULL) {
+        goto cleanup;
+    }
     for (int i = 0; i < FF1_ROUNDS; ++i) {
         // v
         int m = (i & 1) ? v : u;
@@ -115,15 +126,16 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
         // ii PRF(P || Q), P is always 16 bytes long
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx));
             Qi += 16;
             if (cc == count - 2) {
                 memcpy(cn_1, R, 16);
@@ -132,10 +144,10 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         //cbc-mac
         uint8_t M_last[16];
         for (int j = 0; j < 16; j++) {
-            M_last[j] = K1[j] ^ R[i] ^ cn_1[i];
+            M_last[j] = K1[j] ^ R[j] ^ cn_1[j];
         }
         uint8_t M_mac[16];
-        (*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx));
         for (int j = 0; j < 16; j++) {
             mac[j] = mac[j] ^ M_mac[j];
         }
@@ -159,7 +171,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             assert(16 + 16 * j <= Slen);
             memcpy(S + 16 * j, SS, 16);
@@ -208,6 +220,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Q = NULL, *Bytes = NULL, *S = NULL;
 
     union {
         long one;
@@ -215,8 +228,10 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     } is_endian = {1};
 
     unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    unsigned int in[inlen + 1], out[inlen + 1];
+    if (inlen < 2 || !map_chars(input, in, ctx->fpe_ctx->radix)) {
+        goto cleanup;
+    }
 
     memcpy(out, in, inlen << 2);
     int u = floor2(inlen, 1);
@@ -231,7 +246,8 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int pad = ((-ctx->fpe_ctx->tweaklen - b - 1) % 16 + 16) % 16;
     int Qlen = ctx->fpe_ctx->tweaklen + pad + 1 + b;
     unsigned char P[16];
-    unsigned char *Q = (unsigned char *) malloc(Qlen), *Bytes = (unsigned char *) malloc(b);
+    Q = (unsigned char *) malloc(Qlen);
+    Bytes = (unsigned char *) malloc(b);
     // initialize P
     P[0] = 0x1;
     P[1] = 0x2;
@@ -264,13 +280,16 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //cmac key1 and key2
     uint8_t K1[16] = {0}, K2[16] = {0};
-    generate_cmac_sub_keys(ctx, K1, K2);
+    WBCRYPTO_MPI_CHK(generate_cmac_sub_keys(ctx, K1, K2));
     uint8_t mac[16] = {0};
 
     unsigned char R[16];
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
-    unsigned char *S = (unsigned char *) malloc(Slen);
+    S = (unsigned char *) malloc(Slen);
+    if (Q == NULL || Bytes == NULL || S == NULL) {
+        goto cleanup;
+    }
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
         // v
         int m = (i & 1) ? v : u;
@@ -286,15 +305,16 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         // ii PRF(P || Q)
         memset(R, 0x00, sizeof(R));
         // AES_encrypt(P, R, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, R, ctx->fpe_ctx->cipher_ctx));
         int count = Qlen / 16;
         unsigned char Ri[16];
         unsigned char *Qi = Q;
         uint8_t cn_1[16];
+        memcpy(cn_1, R, 16);
         for (int cc = 0; cc < count; ++cc) {
             for (int j = 0; j < 16; ++j) Ri[j] = Qi[j] ^ R[j];
             // AES_encrypt(Ri, R, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(Ri, R, ctx->fpe_ctx->cipher_ctx));
             Qi += 16;
             if (cc == count - 2) {
                 memcpy(cn_1, R, 16);
@@ -303,10 +323,10 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         //cbc-mac
         uint8_t M_last[16];
         for (int j = 0; j < 16; j++) {
-            M_last[j] = K1[j] ^ R[i] ^ cn_1[i];
+            M_last[j] = K1[j] ^ R[j] ^ cn_1[j];
         }
         uint8_t M_mac[16];
-        (*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(M_last, M_mac, ctx->fpe_ctx->cipher_ctx));
         for (int j = 0; j < 16; j++) {
             mac[j] = mac[j] ^ M_mac[j];
         }
@@ -329,7 +349,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
             for (int k = 0; k < 16; ++k) tmp[k] ^= R[k];
             // AES_encrypt(tmp, SS, &aes_enc_ctx);
-            (*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx);
+            WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(tmp, SS, ctx->fpe_ctx->cipher_ctx));
             assert((S + 16 * j)[0] == 0x00);
             memcpy(S + 16 * j, SS, 16);
         }
diff --git a/src/fpe/ff3.c b/src/fpe/ff3.c
index 3e851d6..7e82df4 100644
--- a/src/fpe/ff3.c
+++ b/src/fpe/ff3.c
@@ -10,10 +10,13 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Bytes = NULL;
 
     unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    unsigned int in[inlen + 1], out[inlen + 1];
+    if (inlen < 1 || !map_chars(input, in, ctx->radix)) {
+        goto cleanup;
+    }
 
     memcpy(out, in, inlen << 2);
     int u = ceil2(inlen, 1);
@@ -24,7 +27,10 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (Bytes == NULL) {
+        goto cleanup;
+    }
 
     for (int i = 0; i < FF3_ROUNDS; ++i) {
         // i
@@ -48,7 +54,7 @@ int WBCRYPTO_ff3_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         // iii
         rev_bytes(P, 16);
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->block)(P, S, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, S, ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         // iv
@@ -91,10 +97,13 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Bytes = NULL;
 
     unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    unsigned int in[inlen + 1], out[inlen + 1];
+    if (inlen < 1 || !map_chars(input, in, ctx->radix)) {
+        goto cleanup;
+    }
 
     memcpy(out, in, inlen << 2);
     int u = ceil2(inlen, 1);
@@ -105,7 +114,10 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (Bytes == NULL) {
+        goto cleanup;
+    }
     for (int i = FF3_ROUNDS - 1; i >= 0; --i) {
         // i
         int m;
@@ -131,7 +143,7 @@ int WBCRYPTO_ff3_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
         rev_bytes(P, 16);
         memset(S, 0x00, sizeof(S));
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->block)(P, S, ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->block)(P, S, ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         // iv
diff --git a/src/fpe/ff3_gmac.c b/src/fpe/ff3_gmac.c
index aba96af..20d2c64 100644
--- a/src/fpe/ff3_gmac.c
+++ b/src/fpe/ff3_gmac.c
@@ -88,10 +88,13 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Bytes = NULL;
 
     unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    unsigned int in[inlen + 1], out[inlen + 1];
+    if (inlen < 1 || !map_chars(input, in, ctx->fpe_ctx->radix)) {
+        goto cleanup;
+    }
 
     memcpy(out, in, inlen << 2);
     int u = ceil2(inlen, 1);
@@ -102,11 +105,14 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     const int b = ceil2(temp, 3);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (Bytes == NULL) {
+        goto cleanup;
+    }
 
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
-    gmac_gen_H(ctx, HH, HL);
+    WBCRYPTO_MPI_CHK(gmac_gen_H(ctx, HH, HL));
     unsigned char T[16], M[16];
     memcpy(T, ctx->fpe_ctx->tweak, 16);
     gmac_mult_H(HH, HL, T, M);
@@ -134,7 +140,7 @@ int WBCRYPTO_ff3_gmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         // iii
         rev_bytes(P, 16);
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         //gmac
@@ -185,10 +191,13 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
             *qpow_u = BN_new(),
             *qpow_v = BN_new();
     BN_CTX *bn_ctx = BN_CTX_new();
+    unsigned char *Bytes = NULL;
 
     unsigned int inlen = strlen(input);
-    unsigned int in[inlen], out[inlen];
-    map_chars(input, in);
+    unsigned int in[inlen + 1], out[inlen + 1];
+    if (inlen < 1 || !map_chars(input, in, ctx->fpe_ctx->radix)) {
+        goto cleanup;
+    }
 
     memcpy(out, in, inlen << 2);
     int u = ceil2(inlen, 1);
@@ -200,13 +209,16 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
 
     //gmac
     uint64_t HH[16] = {0}, HL[16] = {0};
-    gmac_gen_H(ctx, HH, HL);
+    WBCRYPTO_MPI_CHK(gmac_gen_H(ctx, HH, HL));
     unsigned char T[16]={0}, M[16]={0};
     memcpy(T, ctx->fpe_ctx->tweak, 16);
     gmac_mult_H(HH, HL, T, M);
 
     unsigned char S[16], P[16];
-    unsigned char *Bytes = (unsigned char *) OPENSSL_malloc(b);
+    Bytes = (unsigned char *) OPENSSL_malloc(b);
+    if (Bytes == NULL) {
+        goto cleanup;
+    }
     for (int i = FF3_ROUNDS - 1; i >= 0; --i) {
         // i
         int m;
@@ -231,7 +243,7 @@ int WBCRYPTO_ff3_gmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
         rev_bytes(P, 16);
         memset(S, 0x00, sizeof(S));
         // AES_encrypt(P, S, &aes_enc_ctx);
-        (*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx);
+        WBCRYPTO_MPI_CHK((*ctx->fpe_ctx->block)(P, S, ctx->fpe_ctx->cipher_ctx));
         rev_bytes(S, 16);
 
         //gmac
diff --git a/src/fpe/fpe_locl.c b/src/fpe/fpe_locl.c
index 74b8857..a4ed217 100644
--- a/src/fpe/fpe_locl.c
+++ b/src/fpe/fpe_locl.c
@@ -36,15 +36,21 @@ void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *
     */
 }
 
-void map_chars(const unsigned char str[], unsigned int result[]) {
+// 0 if some character is not a numeral of the given radix
+int map_chars(const unsigned char str[], unsigned int result[], unsigned int radix) {
     int len = strlen(str);
 
-    for (int i = 0; i < len; ++i)
-        if (str[i] >= 'a')
+    for (int i = 0; i < len; ++i) {
+        if (str[i] >= 'a' && str[i] <= 'z')
             result[i] = str[i] - 'a' + 10;
-        else
+        else if (str[i] >= '0' && str[i] <= '9')
             result[i] = str[i] - '0';
-    return;
+        else
+            return 0;
+        if (result[i] >= radix)
+            return 0;
+    }
+    return 1;
 }
 
 void inverse_map_chars(unsigned result[], unsigned char str[], int len) {
diff --git a/src/fpe/fpe_locl.h b/src/fpe/fpe_locl.h
index 050dd1b..eaff8a8 100644
--- a/src/fpe/fpe_locl.h
+++ b/src/fpe/fpe_locl.h
@@ -18,7 +18,7 @@
 
 void pow_uv(BIGNUM *pow_u, BIGNUM *pow_v, unsigned int x, int u, int v, BN_CTX *ctx);
 
-void map_chars(const unsigned char str[], unsigned int result[]);
+int map_chars(const unsigned char str[], unsigned int result[], unsigned int radix);
 
 void inverse_map_chars(unsigned result[], unsigned char str[], int len);
 
-- 
2.43.0


From 1b8624d0aae86d23e1bb531d21d13f98c2f9946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:07 +0000
Subject: [PATCH 14/24] fix: FPE applications overflowed the answer buffer,
 read past short samples and keys, and ignored failures

---
 src/fpe_app/cn_utf8.c   | 25 ++++++++++++++++++++-----
 src/fpe_app/idcard.c    | 18 +++++++++++++-----
 src/fpe_app/init.c      | 28 +++++++++++++++++++++-------
 src/fpe_app/phone.c     | 14 +++++++++++---
 src/fpe_app/utf8_util.c |  8 +++++---
 src/fpe_app/utf8_util.h |  2 +-
 6 files changed, 71 insertions(+), 24 deletions(-)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index 875d71a..e98191c 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -16,12 +16,17 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
             ++tweak_len;
         }
     }
+    // the sample has to cover the whole input, character by character
+    if (strcmp(sample, "") != 0 &&
+        ((strlen(sample) - tweak_len) % 3 != 0 || tweak_len + (strlen(sample) - tweak_len) / 3 != len)) {
+        return 0;
+    }
     if (strcmp(sample, "") != 0) {
         tweak_len = len - tweak_len;
     }
     char input[(len - tweak_len) * 4 + 1];
     char tweak[tweak_len * 4 + 1];
-    char ans[(len - tweak_len) * 4];
+    char ans[(len - tweak_len) * 4 + 1];
     char *input_p = input;
     char *tweak_p = tweak;
     char *ch = cn;
@@ -29,7 +34,9 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
         for (i = 0; i < len; i++, ch += 3) {
             uint32_t uc = utf8CharToUint32(ch);
             int uc_int = utf8Uint32ToInt(uc);
-            utf8IntToCharDuodecimal(uc_int, input_p);
+            if (!utf8IntToCharDuodecimal(uc_int, input_p)) {
+                return 0;
+            }
             input_p += 4;
         }
     } else {
@@ -37,11 +44,15 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
             uint32_t uc = utf8CharToUint32(ch);
             int uc_int = utf8Uint32ToInt(uc);
             if (sample[i] == '*') {
-                utf8IntToCharDuodecimal(uc_int, input_p);
+                if (!utf8IntToCharDuodecimal(uc_int, input_p)) {
+                    return 0;
+                }
                 input_p += 4;
                 ++i;
             } else {
-                utf8IntToCharDuodecimal(uc_int, tweak_p);
+                if (!utf8IntToCharDuodecimal(uc_int, tweak_p)) {
+                    return 0;
+                }
                 tweak_p += 4;
                 i += 3;
             }
@@ -62,7 +73,10 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 12);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (fpe_ctx == NULL) {
+        goto cleanup;
+    }
+    WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     char *ori_add = cn;
     char *ans_p = ans;
@@ -88,6 +102,7 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
             }
         }
     }
+    *af_p = '\0';
 
     ret = 1;
 cleanup:
diff --git a/src/fpe_app/idcard.c b/src/fpe_app/idcard.c
index ee685ca..bbebd2d 100644
--- a/src/fpe_app/idcard.c
+++ b/src/fpe_app/idcard.c
@@ -10,9 +10,13 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     int ret = 0;
     int len = strlen(idcard);
     int i, j, k, tweak_len = 0;
-    if (idcard[len - 1] == 'X') {
+    if (len > 0 && idcard[len - 1] == 'X') {
         len--;
     }
+    // the sample has to cover the whole input
+    if (strcmp(sample, "") != 0 && strlen(sample) < len) {
+        return 0;
+    }
     if (strcmp(sample, "") != 0) {
         for (i = 0; i < len; i++) {
             if (sample[i] != '*') {
@@ -22,7 +26,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     }
     char input[len - tweak_len + 1];
     char tweak[tweak_len + 1];
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = idcard[i];
@@ -33,7 +37,7 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     input[len - tweak_len] = '\0';
     tweak[tweak_len] = '\0';
 
-    WBCRYPTO_fpe_context *fpe_ctx;
+    WBCRYPTO_fpe_context *fpe_ctx = NULL;
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
@@ -45,7 +49,10 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
     } else { // default: aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (fpe_ctx == NULL) {
+        goto cleanup;
+    }
+    WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
@@ -55,8 +62,9 @@ aux_fpe_idcard(WBCRYPTO_fpe_app_context *ctx, char *idcard, char *sample, char *
         }
     }
     if (idcard[len] == 'X') {
-        after_idcard[len] = 'X';
+        after_idcard[len++] = 'X';
     }
+    after_idcard[len] = '\0';
 
     ret = 1;
 cleanup:
diff --git a/src/fpe_app/init.c b/src/fpe_app/init.c
index 95db799..8c36492 100644
--- a/src/fpe_app/init.c
+++ b/src/fpe_app/init.c
@@ -5,29 +5,43 @@ int WBCRYPTO_fpe_app_init(WBCRYPTO_fpe_app_context *ctx, const uint8_t *key, siz
     int ret = 0;
     ctx->cipher = cipher;
     ctx->ffx = ffx;
-    keylen = keylen >= 16 ? 16 : keylen;
     uint8_t input_key[16];
-    memcpy(input_key, key, keylen);
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);   //Operation after key-padding
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         WBCRYPTO_sm4_context *sm4_ctx = WBCRYPTO_sm4_context_init();
-        WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key));
+        if (sm4_ctx == NULL) {
+            goto cleanup;
+        }
+        WBCRYPTO_MPI_CHK(WBCRYPTO_sm4_init_key(sm4_ctx, input_key, sizeof(input_key)));
         ctx->cipher_ctx = sm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
         WBCRYPTO_wbsm4_context *wbsm4_ctx = WBCRYPTO_wbsm4_context_init(1, 1);
-        WBCRYPTO_wbsm4_gen_table(wbsm4_ctx, input_key, sizeof(input_key));
+        if (wbsm4_ctx == NULL) {
+            goto cleanup;
+        }
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbsm4_gen_table(wbsm4_ctx, input_key, sizeof(input_key)));
         ctx->cipher_ctx = wbsm4_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_AES) == 0) {
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
-        WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key));
+        if (aes_ctx == NULL) {
+            goto cleanup;
+        }
+        WBCRYPTO_MPI_CHK(WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key)));
         ctx->cipher_ctx = aes_ctx;
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBAES) == 0) {
         WBCRYPTO_wbaes_context *wbaes_ctx = WBCRYPTO_wbaes_context_init();
-        WBCRYPTO_wbaes_gen_table(wbaes_ctx, input_key, sizeof(input_key));
+        if (wbaes_ctx == NULL) {
+            goto cleanup;
+        }
+        WBCRYPTO_MPI_CHK(WBCRYPTO_wbaes_gen_table(wbaes_ctx, input_key, sizeof(input_key)));
         ctx->cipher_ctx = wbaes_ctx;
     } else {
         // default: aes
         WBCRYPTO_aes_context *aes_ctx = WBCRYPTO_aes_context_init();
-        WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key));
+        if (aes_ctx == NULL) {
+            goto cleanup;
+        }
+        WBCRYPTO_MPI_CHK(WBCRYPTO_aes_init_key(aes_ctx, input_key, sizeof(input_key)));
         ctx->cipher_ctx = aes_ctx;
     }
     ret = 1;
diff --git a/src/fpe_app/phone.c b/src/fpe_app/phone.c
index 6d2a452..401040e 100644
--- a/src/fpe_app/phone.c
+++ b/src/fpe_app/phone.c
@@ -7,6 +7,10 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     int len = strlen(phone);
     int i, j, k, tweak_len = 0;
 
+    // the sample has to cover the whole input
+    if (strcmp(sample, "") != 0 && strlen(sample) < len) {
+        return 0;
+    }
     if (strcmp(sample, "") != 0) {
         for (i = 0; i < len; i++) {
             if (sample[i] != '*') {
@@ -18,7 +22,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     input[len - tweak_len] = '\0';
     char tweak[tweak_len + 1];
     tweak[tweak_len] = '\0';
-    char ans[len - tweak_len];
+    char ans[len - tweak_len + 1];
     for (i = 0, j = 0, k = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
             tweak[k++] = phone[i];
@@ -27,7 +31,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
         }
     }
 
-    WBCRYPTO_fpe_context *fpe_ctx;
+    WBCRYPTO_fpe_context *fpe_ctx = NULL;
     if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_SM4) == 0) {
         fpe_ctx = WBCRYPTO_sm4_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     } else if (strcmp(ctx->cipher, WBCYRPTO_FPE_CIPHER_WBSM4) == 0) {
@@ -39,7 +43,10 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
     } else { //default:aes
         fpe_ctx = WBCRYPTO_aes_fpe_init(ctx->cipher_ctx, tweak, sizeof(tweak), 10);
     }
-    (*block)(fpe_ctx, input, ans);
+    if (fpe_ctx == NULL) {
+        goto cleanup;
+    }
+    WBCRYPTO_MPI_CHK((*block)(fpe_ctx, input, ans));
 
     for (i = 0, j = 0; i < len; i++) {
         if (strcmp(sample, "") != 0 && sample[i] != '*') {
@@ -48,6 +55,7 @@ int aux_fpe_phone(WBCRYPTO_fpe_app_context *ctx, char *phone, char *sample, char
             after_phone[i] = ans[j++];
         }
     }
+    after_phone[len] = '\0';
 
     ret = 1;
 cleanup:
diff --git a/src/fpe_app/utf8_util.c b/src/fpe_app/utf8_util.c
index eb404ac..2ed6db4 100644
--- a/src/fpe_app/utf8_util.c
+++ b/src/fpe_app/utf8_util.c
@@ -54,10 +54,11 @@ int char_to_int(char c) {
     }
 }
 
-void utf8IntToCharDuodecimal(int dec, char result[]) {
+// 0 if the number does not fit in four duodecimal digits
+int utf8IntToCharDuodecimal(int dec, char result[]) {
     if (dec > 20735 || dec < 0) {
         printf("Error: invalid duodecimal number: %d", dec);
-        return;
+        return 0;
     }
     int i = 0, num = dec;
     while (num > 0) {
@@ -70,9 +71,10 @@ void utf8IntToCharDuodecimal(int dec, char result[]) {
         num /= 12;
         i++;
     }
-    while (i <= 4) {
+    while (i < 4) {
         result[i++] = '0';
     }
+    return 1;
 }
 
 int utf8CharDuodecimalToInt(const char duo[]) {
diff --git a/src/fpe_app/utf8_util.h b/src/fpe_app/utf8_util.h
index 9cdd76a..03227a5 100644
--- a/src/fpe_app/utf8_util.h
+++ b/src/fpe_app/utf8_util.h
@@ -18,7 +18,7 @@ uint32_t utf8IntToUint32(int uc);
 //
 //int utf8CharNumToInt(char *num);
 
-void utf8IntToCharDuodecimal(int dec, char result[]);
+int utf8IntToCharDuodecimal(int dec, char result[]);
 
 int utf8CharDuodecimalToInt(const char duo[]);
 
-- 
2.43.0


From 5f6a2240c98547e279353563d06e15373941ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:57 +0000
Subject: [PATCH 15/24] fix: wbsm4 dummy rounds used uninitialised tables, and
 neighbouring dummy groups shifted the round keys

---
 src/wbsm4/wbsm4_gen.c | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index c67b97b..b01129b 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -164,14 +164,10 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
         D[i].Vec.V ^= P[i + 4].Vec.V ^ temp_u32;
     }
 
-    int flag = 0;
-    int point;
-    for (i = 0, point=0; i < wbsm4_ctx->rounds; i++, point++)
+    int point = 0;     // index of the next genuine round
+    for (i = 0; i < wbsm4_ctx->rounds; i++)
     {
         if(dummy_array[i]==0) {
-            point = flag ? point - 4 : point;
-            flag = 0;
-
             //1
             for (j = 0; j < 3; j++) {
                 Q_constant[j] = cus_random();
@@ -230,12 +226,15 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
                 }
                 wbsm4_ctx->Table[i][3][x] ^= Q[point].Vec.V ^ Q_constant[0] ^ Q_constant[1] ^ Q_constant[2];
             }
+            point++;
         }else{
-            flag=1;
             for(j=0;j<4;j++){
                 for(x=0;x<256;x++){
+                    wbsm4_ctx->MM[i][0][j][x]=0;
+                    wbsm4_ctx->MM[i][1][j][x]=0;
+                    wbsm4_ctx->MM[i][2][j][x]=0;
                     wbsm4_ctx->Table[i][j][x]=0;
-//                    wbsm4_ctx->DD[i][j][x]=0;
+                    wbsm4_ctx->DD[i][j][x]=0;
                 }
             }
 //            identityAff32(&wbsm4_ctx->CC[i]);
-- 
2.43.0


From 4a55ef134e21e6b68d55c1cd0261ba9dd1d2757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:27 +0000
Subject: [PATCH 16/24] fix: context free functions erased but never released
 memory, and wbsm4_context_init ignored failed allocations

---
 include/wbcrypto/wbsm4.h |   1 +
 src/aes/aes.c            |   5 +-
 src/modes/gcm128.c       |   5 +-
 src/modes/gcmfile.c      |   6 ++-
 src/se_wbsm4/se_wbsm4.c  |   5 +-
 src/sm4/sm4.c            |   5 +-
 src/wbaes/wbaes.c        |   5 +-
 src/wbsm4/wbsm4.c        | 111 ++++++++++++++++++++++++++++++---------
 8 files changed, 112 insertions(+), 31 deletions(-)

diff --git a/include/wbcrypto/wbsm4.h b/include/wbcrypto/wbsm4.h
index ee6c349..0718239 100644
--- a/include/wbcrypto/wbsm4.h
+++ b/include/wbcrypto/wbsm4.h
@@ -21,6 +21,7 @@ extern "C" {
         uint32_t FE[4][4][256];
 
         uint32_t ***Table;      //Table[32][4][256]
+        int alloc_rounds;       //rounds the tables above have room for
     };
 
     typedef struct wbsm4_context WBCRYPTO_wbsm4_context;
diff --git a/src/aes/aes.c b/src/aes/aes.c
index ddd22cc..1ddf801 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -13,7 +13,10 @@ cleanup:
 }
 
 void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
-    memset(ctx,0,sizeof(struct aes_context));
+    if(ctx!=NULL){
+        memset(ctx,0,sizeof(struct aes_context));
+        free(ctx);
+    }
 }
 
 int WBCRYPTO_aes_init_key(WBCRYPTO_aes_context *ctx, const uint8_t *key, size_t keylen){
diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index dcd3cfb..8e4ce7c 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -289,5 +289,8 @@ cleanup:
 }
 
 void WBCRYPTO_gcm_free(WBCRYPTO_gcm_context *ctx){
-    memset( ctx, 0, sizeof(WBCRYPTO_gcm_context) );
+    if(ctx!=NULL){
+        memset( ctx, 0, sizeof(WBCRYPTO_gcm_context) );
+        free(ctx);
+    }
 }
\ No newline at end of file
diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index b6b3d77..13ebd2e 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -201,6 +201,10 @@ cleanup:
 }
 
 void WBCRYPTO_gcmfile_free(WBCRYPTO_gcmfile_context *ctx) {
-    memset(ctx, 0, sizeof(WBCRYPTO_gcmfile_context));
+    if (ctx != NULL) {
+        WBCRYPTO_gcm_free(ctx->gcm);
+        memset(ctx, 0, sizeof(WBCRYPTO_gcmfile_context));
+        free(ctx);
+    }
 }
 
diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index 382a84c..8471d84 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -14,7 +14,10 @@ cleanup:
 }
 
 void WBCRYPTO_se_wbsm4_context_free(WBCRYPTO_se_wbsm4_context *ctx) {
-    memset(ctx, 0, sizeof(struct se_wbsm4_context));
+    if (ctx != NULL) {
+        memset(ctx, 0, sizeof(struct se_wbsm4_context));
+        free(ctx);
+    }
 }
 
 int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *key, size_t keylen) {
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index 7cd29b7..6090a7c 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -140,7 +140,10 @@ cleanup:
 }
 
 void WBCRYPTO_sm4_context_free(WBCRYPTO_sm4_context *ctx){
-    memset(ctx,0,sizeof(struct sm4_context));
+    if(ctx!=NULL){
+        memset(ctx,0,sizeof(struct sm4_context));
+        free(ctx);
+    }
 }
 
 int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keylen, int encmode){
diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 6f048ce..e40c0ac 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -14,7 +14,10 @@ cleanup:
 }
 
 void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
-    memset(ctx,0,sizeof(struct wbaes_context));
+    if(ctx!=NULL){
+        memset(ctx,0,sizeof(struct wbaes_context));
+        free(ctx);
+    }
 }
 
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index 56d390a..de7526d 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -1,51 +1,112 @@
 #include "wbsm4_local.h"
 
+// four tables of one round, with the key material in them erased
+static void release_round(uint32_t **round){
+    int k;
+    if(round==NULL){
+        return;
+    }
+    for(k=0;k<4;k++){
+        if(round[k]!=NULL){
+            memset(round[k], 0, 256*sizeof(uint32_t));
+            free(round[k]);
+        }
+    }
+    free(round);
+}
+
+static uint32_t **alloc_round(void){
+    int k;
+    uint32_t **round=(uint32_t **)calloc(4, sizeof(uint32_t*));
+    if(round==NULL){
+        return NULL;
+    }
+    for(k=0;k<4;k++){
+        round[k]=(uint32_t *)malloc((256)*sizeof(uint32_t));
+        if(round[k]==NULL){
+            while(k-->0){
+                free(round[k]);
+            }
+            free(round);
+            return NULL;
+        }
+    }
+    return round;
+}
+
+static void release_tables(WBCRYPTO_wbsm4_context *ctx){
+    int i,j;
+    for(i=0;i<ctx->alloc_rounds;i++){
+        for(j=0; ctx->MM!=NULL && ctx->MM[i]!=NULL && j<3; j++){
+            release_round(ctx->MM[i][j]);
+        }
+        if(ctx->MM!=NULL){
+            free(ctx->MM[i]);
+        }
+        if(ctx->CC!=NULL){
+            release_round(ctx->CC[i]);
+        }
+        if(ctx->DD!=NULL){
+            release_round(ctx->DD[i]);
+        }
+        if(ctx->Table!=NULL){
+            release_round(ctx->Table[i]);
+        }
+    }
+    free(ctx->MM);
+    free(ctx->CC);
+    free(ctx->DD);
+    free(ctx->Table);
+}
+
 WBCRYPTO_wbsm4_context *WBCRYPTO_wbsm4_context_init(int encmode, int dummyrounds){
-    int i,j,k;
+    int i,j;
     struct wbsm4_context *ctx=malloc(sizeof(struct wbsm4_context));
     if(ctx==NULL){
         return NULL;
     }
     int rounds = 32 + 4*dummyrounds;
-    ctx->MM = (uint32_t ****)malloc(rounds*sizeof(uint32_t***));
-    ctx->CC = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
-    ctx->DD = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
-    ctx->Table = (uint32_t ***)malloc(rounds*sizeof(uint32_t**));
-
-    for(i=0;i<rounds;i++){
-        ctx->MM[i]=(uint32_t ***)malloc((3)*sizeof(uint32_t**));
-        ctx->CC[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
-        ctx->DD[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
-        ctx->Table[i]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
+    ctx->alloc_rounds=rounds;
+    ctx->MM = (uint32_t ****)calloc(rounds, sizeof(uint32_t***));
+    ctx->CC = (uint32_t ***)calloc(rounds, sizeof(uint32_t**));
+    ctx->DD = (uint32_t ***)calloc(rounds, sizeof(uint32_t**));
+    ctx->Table = (uint32_t ***)calloc(rounds, sizeof(uint32_t**));
+    if(ctx->MM==NULL || ctx->CC==NULL || ctx->DD==NULL || ctx->Table==NULL){
+        goto cleanup;
     }
 
     for(i=0; i< rounds; i++) {
-        for (j = 0; j < 3; j++) {
-            ctx->MM[i][j]=(uint32_t **)malloc((4)*sizeof(uint32_t*));
+        ctx->MM[i]=(uint32_t ***)calloc(3, sizeof(uint32_t**));
+        if(ctx->MM[i]==NULL){
+            goto cleanup;
         }
-    }
-    for(i=0; i< rounds; i++) {
         for (j = 0; j < 3; j++) {
-            for (k = 0; k < 4; k++) {
-                ctx->MM[i][j][k] = (uint32_t *) malloc((256) * sizeof(uint32_t));
+            if((ctx->MM[i][j]=alloc_round())==NULL){
+                goto cleanup;
             }
         }
-    }
-
-    for(i=0; i< rounds; i++) {
-        for (j = 0; j < 4; j++) {
-            ctx->CC[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
-            ctx->DD[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
-            ctx->Table[i][j]=(uint32_t *)malloc((256)*sizeof(uint32_t));
+        ctx->CC[i]=alloc_round();
+        ctx->DD[i]=alloc_round();
+        ctx->Table[i]=alloc_round();
+        if(ctx->CC[i]==NULL || ctx->DD[i]==NULL || ctx->Table[i]==NULL){
+            goto cleanup;
         }
     }
     ctx->rounds=rounds;
     ctx->encmode=encmode;
     return ctx;
+cleanup:
+    release_tables(ctx);
+    free(ctx);
+    return NULL;
 }
 
 void WBCRYPTO_wbsm4_context_free(WBCRYPTO_wbsm4_context *ctx){
-    memset(ctx,0,sizeof(struct wbsm4_context));
+    if(ctx!=NULL){
+        release_tables(ctx);
+        memset(ctx,0,sizeof(struct wbsm4_context));
+        free(ctx);
+    }
 }
 
 int WBCRYPTO_wbsm4_encrypt(const unsigned char *in, unsigned char *out, WBCRYPTO_wbsm4_context *ctx){
-- 
2.43.0


From 6ad2f292b4acae05770301fc5b8a728d4a5e8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:27 +0000
Subject: [PATCH 17/24] fix: wbsm4_key2bytes exported pointers instead of the
 tables

---
 src/wbsm4/wbsm4_exkey.c | 63 +++++++++++++++++++++++++++++++----------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/src/wbsm4/wbsm4_exkey.c b/src/wbsm4/wbsm4_exkey.c
index 90936fb..7a999a2 100644
--- a/src/wbsm4/wbsm4_exkey.c
+++ b/src/wbsm4/wbsm4_exkey.c
@@ -73,8 +73,8 @@ int WBCRYPTO_wbsm4_file2key(WBCRYPTO_wbsm4_context *ctx, char *fpath){
        ||!fread(&ctx->encmode, sizeof(int), 1, rkey)){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
-    // the tables of ctx have room for ctx->rounds rounds
-    if(rounds < 32 || rounds > ctx->rounds){
+    // the tables of ctx have room for ctx->alloc_rounds rounds
+    if(rounds < 32 || rounds > ctx->alloc_rounds){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_file2key",WBCRYPTO_ERR_READ_BAD_FILE);
     }
     ctx->rounds = rounds;
@@ -114,20 +114,37 @@ cleanup:
     return ret;
 }
 
+#define WBSM4_TABLE_BYTES (256*sizeof(uint32_t))
+
 int WBCRYPTO_wbsm4_key2bytes(const WBCRYPTO_wbsm4_context *ctx, char **kstream){
     int ret=0;
-    int ks_len = 0;
+    int i,j,k;
+    uint32_t ks_len;
+    char *p;
 
-    ks_len = sizeof(struct wbsm4_context);
-    ks_len += sizeof(uint32_t);
+    // length, rounds, mode, external encodings, and for each round MM, CC, DD, Table
+    ks_len = sizeof(uint32_t) + 2*sizeof(int) + sizeof(ctx->SE) + sizeof(ctx->FE)
+             + ctx->rounds*(3*4 + 3*4)*WBSM4_TABLE_BYTES;
     *kstream = malloc(ks_len);
     if(*kstream==NULL){
         WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_key2bytes",WBCRYPTO_ERR_ALLOC_FAILED);
     }
-    *((uint32_t *)*kstream) = ks_len;
-    uint8_t* ds  = *kstream + sizeof(uint32_t);
-    memcpy(ds, ctx, sizeof(struct wbsm4_context));
-
+    p = *kstream;
+    memcpy(p, &ks_len, sizeof(uint32_t));       p += sizeof(uint32_t);
+    memcpy(p, &ctx->rounds, sizeof(int));       p += sizeof(int);
+    memcpy(p, &ctx->encmode, sizeof(int));      p += sizeof(int);
+    memcpy(p, ctx->SE, sizeof(ctx->SE));        p += sizeof(ctx->SE);
+    memcpy(p, ctx->FE, sizeof(ctx->FE));        p += sizeof(ctx->FE);
+    for (i = 0;  i< ctx->rounds; i++) {
+        for (k = 0;  k<4 ; k++) {
+            for (j = 0;  j<3 ; j++) {
+                memcpy(p, ctx->MM[i][j][k], WBSM4_TABLE_BYTES);     p += WBSM4_TABLE_BYTES;
+            }
+            memcpy(p, ctx->CC[i][k], WBSM4_TABLE_BYTES);            p += WBSM4_TABLE_BYTES;
+            memcpy(p, ctx->DD[i][k], WBSM4_TABLE_BYTES);            p += WBSM4_TABLE_BYTES;
+            memcpy(p, ctx->Table[i][k], WBSM4_TABLE_BYTES);         p += WBSM4_TABLE_BYTES;
+        }
+    }
     ret=1;
 cleanup:
     return ret;
@@ -135,14 +152,30 @@ cleanup:
 
 int WBCRYPTO_wbsm4_bytes2key(WBCRYPTO_wbsm4_context *ctx, const char *kstream){
     int ret=0;
+    int i,j,k;
+    int rounds;
+    const char *p = kstream + sizeof(uint32_t);
 
-    const uint8_t  *ptr = kstream;
-    ptr += sizeof(uint32_t);
-    memcpy(ctx, ptr, sizeof(struct wbsm4_context));
-
+    memcpy(&rounds, p, sizeof(int));            p += sizeof(int);
+    // the tables of ctx have room for ctx->alloc_rounds rounds
+    if(rounds < 32 || rounds > ctx->alloc_rounds){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_wbsm4_bytes2key",WBCRYPTO_ERR_READ_BAD_FILE);
+    }
+    ctx->rounds = rounds;
+    memcpy(&ctx->encmode, p, sizeof(int));      p += sizeof(int);
+    memcpy(ctx->SE, p, sizeof(ctx->SE));        p += sizeof(ctx->SE);
+    memcpy(ctx->FE, p, sizeof(ctx->FE));        p += sizeof(ctx->FE);
+    for (i = 0;  i< ctx->rounds; i++) {
+        for (k = 0;  k<4 ; k++) {
+            for (j = 0;  j<3 ; j++) {
+                memcpy(ctx->MM[i][j][k], p, WBSM4_TABLE_BYTES);     p += WBSM4_TABLE_BYTES;
+            }
+            memcpy(ctx->CC[i][k], p, WBSM4_TABLE_BYTES);            p += WBSM4_TABLE_BYTES;
+            memcpy(ctx->DD[i][k], p, WBSM4_TABLE_BYTES);            p += WBSM4_TABLE_BYTES;
+            memcpy(ctx->Table[i][k], p, WBSM4_TABLE_BYTES);         p += WBSM4_TABLE_BYTES;
+        }
+    }
     ret=1;
 cleanup:
     return ret;
 }
-
-
-- 
2.43.0


From 8b5dc5c393e8a47433c2a905418af89470405ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:29 +0000
Subject: [PATCH 18/24] fix: white-box SM4 key set-up ignored failed
 allocations and leaked the round keys unerased

---
 src/se_wbsm4/se_wbsm4.c |  9 +++++----
 src/sm4/sm4.c           |  3 +++
 src/utils/wrandom.c     |  2 ++
 src/wbsm4/wbsm4_gen.c   | 25 +++++++++++++++++++------
 4 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index 8471d84..9157690 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -29,10 +29,10 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
     Aff32 AA[32], BB[32];
 
     WBCRYPTO_sm4_context *sm4_key = WBCRYPTO_sm4_context_init();
-    if (ctx->encmode) {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE);
-    } else {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE);
+    if (sm4_key == NULL
+        || !aux_sm4_init_key(sm4_key, key, keylen, ctx->encmode ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE)) {
+        WBCRYPTO_sm4_context_free(sm4_key);
+        return 0;
     }
     InitRandom(((unsigned int) time(NULL)));
 
@@ -90,6 +90,7 @@ int WBCRYPTO_se_wbsm4_gen_table(WBCRYPTO_se_wbsm4_context *ctx, const uint8_t *k
         ctx->FE[i].Mat = P_inv[35 - i].Mat;
         ctx->FE[i].Vec = P_inv[35 - i].Vec;
     }
+    WBCRYPTO_sm4_context_free(sm4_key);
     return 1;
 }
 
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index 6090a7c..f6df14e 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -149,6 +149,9 @@ void WBCRYPTO_sm4_context_free(WBCRYPTO_sm4_context *ctx){
 int aux_sm4_init_key(WBCRYPTO_sm4_context *ctx, const uint8_t *key, size_t keylen, int encmode){
     int ret=0;
     uint8_t *padkey = (uint8_t *)malloc(16*sizeof(uint8_t));
+    if(padkey==NULL){
+        WBCRYPTO_THROW_REASON("WBCRYPTO_sm4_init_key",WBCRYPTO_ERR_ALLOC_FAILED);
+    }
 
     WBCRYPTO_key_padding_pkcs7(key, keylen, padkey);   //Operation after key-padding
 
diff --git a/src/utils/wrandom.c b/src/utils/wrandom.c
index d543e94..5148594 100644
--- a/src/utils/wrandom.c
+++ b/src/utils/wrandom.c
@@ -58,6 +58,8 @@ int wRandomShuffleU8(uint8_t *list, int len) {
     int t, roundCnt, ret;
     unsigned int *randNumbers;
     randNumbers = (unsigned int *)malloc((len + 10) * sizeof(unsigned int));
+    if (randNumbers == NULL)
+        return -1;
     memset(randNumbers, 0, (len + 10) * sizeof(unsigned int));
     wRandomList((int*) randNumbers, len);
     while (len > 0) {
diff --git a/src/wbsm4/wbsm4_gen.c b/src/wbsm4/wbsm4_gen.c
index b01129b..a526039 100644
--- a/src/wbsm4/wbsm4_gen.c
+++ b/src/wbsm4/wbsm4_gen.c
@@ -82,11 +82,18 @@ void identityAff32(Aff32 *aff){
 uint8_t *wbsm4_gen_dummyround_array(int rounds, int dummyrounds) {
     int len_origin = rounds + dummyrounds;
     uint8_t *da = (uint8_t*) malloc(sizeof(uint8_t)*(len_origin));
+    if (da == NULL) {
+        return NULL;
+    }
     memset(da, 0, rounds);
     memset(da+rounds, 1, dummyrounds);
-    wRandomShuffleU8(da, len_origin);
     int len_result = rounds + 4*dummyrounds;
     uint8_t *result = (uint8_t*) malloc(sizeof(uint8_t)*(len_result));
+    if (result == NULL || wRandomShuffleU8(da, len_origin) != 0) {
+        free(result);
+        free(da);
+        return NULL;
+    }
     uint8_t *iter = result;
     int i;
     for (i=0; i<len_origin; i++) {
@@ -121,15 +128,20 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
     Aff32 D[32];
     uint32_t Q_constant[3] = {0};
 
+    uint8_t *dummy_array = NULL;
     WBCRYPTO_sm4_context *sm4_key=WBCRYPTO_sm4_context_init();
-    if(wbsm4_ctx->encmode) {
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_ENCRYPT_MODE);
-    }else{
-        aux_sm4_init_key(sm4_key, key, keylen, WBCRYPTO_DECRYPT_MODE);
+    if(sm4_key==NULL){
+        goto cleanup;
+    }
+    if(!aux_sm4_init_key(sm4_key, key, keylen, wbsm4_ctx->encmode ? WBCRYPTO_ENCRYPT_MODE : WBCRYPTO_DECRYPT_MODE)){
+        goto cleanup;
     }
     InitRandom(((unsigned int)time(NULL)));
 
-    uint8_t *dummy_array = wbsm4_gen_dummyround_array(32, (wbsm4_ctx->rounds-32)/4);
+    dummy_array = wbsm4_gen_dummyround_array(32, (wbsm4_ctx->rounds-32)/4);
+    if(dummy_array==NULL){
+        goto cleanup;
+    }
 
     for (i = 0; i < 36; i++)
     {
@@ -274,6 +286,7 @@ int WBCRYPTO_wbsm4_gen_table(WBCRYPTO_wbsm4_context *wbsm4_ctx,
     ret=1;
 cleanup:
     free(dummy_array);
+    WBCRYPTO_sm4_context_free(sm4_key);
     return ret;
 }
 
-- 
2.43.0


From e207bc8f61d4b6659c23a4c55f2c684b37b49082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:05 +0000
Subject: [PATCH 19/24] fix: white-box AES ignored the key length and read past
 short keys

---
 src/wbaes/wbaes.c                 | 4 +++-
 src/wbaes/wbaes_wbgcm_ee_init.c   | 4 +++-
 src/wbaes/wbaes_wbgcm_mask_init.c | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index e40c0ac..1d5fd8c 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -23,7 +23,9 @@ void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
 int WBCRYPTO_wbaes_gen_table(WBCRYPTO_wbaes_context *ctx, const uint8_t *key, size_t keylen) {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);   //Operation after key-padding
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_ee_init.c b/src/wbaes/wbaes_wbgcm_ee_init.c
index af91483..08b93ec 100644
--- a/src/wbaes/wbaes_wbgcm_ee_init.c
+++ b/src/wbaes/wbaes_wbgcm_ee_init.c
@@ -5,7 +5,9 @@ void WBCRYPTO_wbaes_wbgcm_ee_gen_table(WBCRYPTO_wbaes_wbgcm_ee_context *ctx, con
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);   //Operation after key-padding
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index f69a232..6476689 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -31,7 +31,9 @@ void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *
 {
     int i, j, x, y, k;
     uint8_t expandedKey[176];
-    expandKey(key, expandedKey);
+    uint8_t input_key[16];
+    WBCRYPTO_key_padding_pkcs7(key, keylen, input_key);   //Operation after key-padding
+    expandKey(input_key, expandedKey);
 
     M8 L[9][16];
     M8 L_inv[9][16];
-- 
2.43.0


From ee16ffe686421efd621b431db5b624ee5f373684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:08 +0000
Subject: [PATCH 20/24] fix: white-box GCM (ee) returned an encoded tag for an
 empty message

---
 src/wbaes/wbaes_wbgcm_ee_mode.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index 1d5d48f..be7c4bf 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -264,22 +264,21 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 
     if (len != 0) memcpy(tag, ctx->base_ectr, len);
 
-    if (orig_len || orig_add_len) {
-        memset(work_buf, 0x00, 16);
+    memset(work_buf, 0x00, 16);
 
-        PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
-        PUT_UINT32_BE((orig_add_len), work_buf, 4);
-        PUT_UINT32_BE((orig_len >> 32), work_buf, 8);
-        PUT_UINT32_BE((orig_len), work_buf, 12);
+    PUT_UINT32_BE((orig_add_len >> 32), work_buf, 0);
+    PUT_UINT32_BE((orig_add_len), work_buf, 4);
+    PUT_UINT32_BE((orig_len >> 32), work_buf, 8);
+    PUT_UINT32_BE((orig_len), work_buf, 12);
 
-        for (i = 0; i < 16; i++) ctx->buf[i] ^= work_buf[i];
-        wbgcm_mult(ctx, ctx->buf, ctx->buf);
+    for (i = 0; i < 16; i++) ctx->buf[i] ^= work_buf[i];
+    wbgcm_mult(ctx, ctx->buf, ctx->buf);
 
-        for (i = 0; i < len; i++) {
-            buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
+    // base_ectr is encoded, so the tables must be applied to an empty message too
+    for (i = 0; i < len; i++) {
+        buff_change[i] = key->GBOX_TypeI[i][ctx->buf[i]];
 //            tag[i] ^= ctx->buf[i];
-            tag[i] = key->GBOX_TypeIII[i][tag[i]][buff_change[i]];
-        }
+        tag[i] = key->GBOX_TypeIII[i][tag[i]][buff_change[i]];
     }
     return 1;
 }
-- 
2.43.0


From f2fb2697e8a7a21c00040e8e468e008aacadb2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:08 +0000
Subject: [PATCH 21/24] fix: white-box GCM (mask) table allocation ignored
 failures

---
 src/wbaes/wbaes_wbgcm_mask_init.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/wbaes/wbaes_wbgcm_mask_init.c b/src/wbaes/wbaes_wbgcm_mask_init.c
index 6476689..f8249dc 100644
--- a/src/wbaes/wbaes_wbgcm_mask_init.c
+++ b/src/wbaes/wbaes_wbgcm_mask_init.c
@@ -15,16 +15,35 @@ WBCRYPTO_wbaes_wbgcm_mask_context* WBCRYPTO_wbaes_wbgcm_mask_init_table(){
     if(ctx==NULL){
         return NULL;
     }
-    ctx->GBOX_TypeIII=(uint8_t ***)malloc((16)*sizeof(uint8_t**));
+    ctx->GBOX_TypeIII=(uint8_t ***)calloc(16, sizeof(uint8_t**));
+    if(ctx->GBOX_TypeIII==NULL){
+        goto cleanup;
+    }
     for(i=0; i< 16; i++) {
-        ctx->GBOX_TypeIII[i]=(uint8_t **)malloc((256)*sizeof(uint8_t*));
+        ctx->GBOX_TypeIII[i]=(uint8_t **)calloc(256, sizeof(uint8_t*));
+        if(ctx->GBOX_TypeIII[i]==NULL){
+            goto cleanup;
+        }
     }
     for(i=0; i< 16; i++) {
         for (j = 0; j < 256; j++) {
             ctx->GBOX_TypeIII[i][j] = (uint8_t *) malloc((256) * sizeof(uint8_t));
+            if(ctx->GBOX_TypeIII[i][j]==NULL){
+                goto cleanup;
+            }
         }
     }
     return ctx;
+cleanup:
+    for(i=0; ctx->GBOX_TypeIII!=NULL && i< 16; i++) {
+        for (j = 0; ctx->GBOX_TypeIII[i]!=NULL && j < 256; j++) {
+            free(ctx->GBOX_TypeIII[i][j]);
+        }
+        free(ctx->GBOX_TypeIII[i]);
+    }
+    free(ctx->GBOX_TypeIII);
+    free(ctx);
+    return NULL;
 }
 
 void WBCRYPTO_wbaes_wbgcm_mask_gen_aes_table(WBCRYPTO_wbaes_wbgcm_mask_context *ctx, const uint8_t *key, size_t keylen)
-- 
2.43.0


From 57842c8240ab107bdfb938544ff2bdc0f643cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:40 +0000
Subject: [PATCH 22/24] fix: compilers removed the erasing memset before free,
 so freed contexts kept their keys

The library is built with -O3, where a memset whose result is only freed is
a dead store. OPENSSL_cleanse is not removed.
---
 src/aes/aes.c                     | 3 ++-
 src/modes/gcm128.c                | 3 ++-
 src/modes/gcmfile.c               | 3 ++-
 src/se_wbsm4/se_wbsm4.c           | 3 ++-
 src/sm4/sm4.c                     | 3 ++-
 src/wbaes/wbaes.c                 | 3 ++-
 src/wbaes/wbaes_wbgcm_ee_mode.c   | 3 ++-
 src/wbaes/wbaes_wbgcm_mask_mode.c | 3 ++-
 src/wbsm4/wbsm4.c                 | 5 +++--
 9 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/aes/aes.c b/src/aes/aes.c
index 1ddf801..038f3ad 100644
--- a/src/aes/aes.c
+++ b/src/aes/aes.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/aes.h>
+#include <openssl/crypto.h>
 
 WBCRYPTO_aes_context *WBCRYPTO_aes_context_init(){
     struct aes_context *ctx=malloc(sizeof(struct aes_context));
@@ -14,7 +15,7 @@ cleanup:
 
 void WBCRYPTO_aes_context_free(WBCRYPTO_aes_context *ctx){
     if(ctx!=NULL){
-        memset(ctx,0,sizeof(struct aes_context));
+        OPENSSL_cleanse(ctx, sizeof(struct aes_context));
         free(ctx);
     }
 }
diff --git a/src/modes/gcm128.c b/src/modes/gcm128.c
index 8e4ce7c..cedbcfc 100644
--- a/src/modes/gcm128.c
+++ b/src/modes/gcm128.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/modes.h>
+#include <openssl/crypto.h>
 
 void gcm_mult( WBCRYPTO_gcm_context *ctx,
                       const unsigned char x[16],
@@ -290,7 +291,7 @@ cleanup:
 
 void WBCRYPTO_gcm_free(WBCRYPTO_gcm_context *ctx){
     if(ctx!=NULL){
-        memset( ctx, 0, sizeof(WBCRYPTO_gcm_context) );
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_gcm_context));
         free(ctx);
     }
 }
\ No newline at end of file
diff --git a/src/modes/gcmfile.c b/src/modes/gcmfile.c
index 13ebd2e..f82d1df 100644
--- a/src/modes/gcmfile.c
+++ b/src/modes/gcmfile.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/modes.h>
+#include <openssl/crypto.h>
 
 WBCRYPTO_gcmfile_context *WBCRYPTO_gcmfile_init(void *key, block128_f block) {
     struct gcmfile_context *ctx = malloc(sizeof(struct gcmfile_context));
@@ -203,7 +204,7 @@ cleanup:
 void WBCRYPTO_gcmfile_free(WBCRYPTO_gcmfile_context *ctx) {
     if (ctx != NULL) {
         WBCRYPTO_gcm_free(ctx->gcm);
-        memset(ctx, 0, sizeof(WBCRYPTO_gcmfile_context));
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_gcmfile_context));
         free(ctx);
     }
 }
diff --git a/src/se_wbsm4/se_wbsm4.c b/src/se_wbsm4/se_wbsm4.c
index 9157690..03b1f8a 100644
--- a/src/se_wbsm4/se_wbsm4.c
+++ b/src/se_wbsm4/se_wbsm4.c
@@ -1,4 +1,5 @@
 #include "se_wbsm4_local.h"
+#include <openssl/crypto.h>
 
 WBCRYPTO_se_wbsm4_context *WBCRYPTO_se_wbsm4_context_init(int encmode) {
     struct se_wbsm4_context *ctx = malloc(sizeof(struct se_wbsm4_context));
@@ -15,7 +16,7 @@ cleanup:
 
 void WBCRYPTO_se_wbsm4_context_free(WBCRYPTO_se_wbsm4_context *ctx) {
     if (ctx != NULL) {
-        memset(ctx, 0, sizeof(struct se_wbsm4_context));
+        OPENSSL_cleanse(ctx, sizeof(struct se_wbsm4_context));
         free(ctx);
     }
 }
diff --git a/src/sm4/sm4.c b/src/sm4/sm4.c
index f6df14e..141d2db 100644
--- a/src/sm4/sm4.c
+++ b/src/sm4/sm4.c
@@ -10,6 +10,7 @@
  */
 
 #include <wbcrypto/sm4.h>
+#include <openssl/crypto.h>
 
 static const uint8_t SM4_S[256] = {
         0xD6, 0x90, 0xE9, 0xFE, 0xCC, 0xE1, 0x3D, 0xB7, 0x16, 0xB6, 0x14, 0xC2,
@@ -141,7 +142,7 @@ cleanup:
 
 void WBCRYPTO_sm4_context_free(WBCRYPTO_sm4_context *ctx){
     if(ctx!=NULL){
-        memset(ctx,0,sizeof(struct sm4_context));
+        OPENSSL_cleanse(ctx, sizeof(struct sm4_context));
         free(ctx);
     }
 }
diff --git a/src/wbaes/wbaes.c b/src/wbaes/wbaes.c
index 1d5fd8c..b667fff 100644
--- a/src/wbaes/wbaes.c
+++ b/src/wbaes/wbaes.c
@@ -1,5 +1,6 @@
 #include <wbcrypto/wbaes.h>
 #include "wbaes_local.h"
+#include <openssl/crypto.h>
 
 WBCRYPTO_wbaes_context *WBCRYPTO_wbaes_context_init(){
     struct wbaes_context *ctx=malloc(sizeof(struct wbaes_context));
@@ -15,7 +16,7 @@ cleanup:
 
 void WBCRYPTO_wbaes_context_free(WBCRYPTO_wbaes_context *ctx){
     if(ctx!=NULL){
-        memset(ctx,0,sizeof(struct wbaes_context));
+        OPENSSL_cleanse(ctx, sizeof(struct wbaes_context));
         free(ctx);
     }
 }
diff --git a/src/wbaes/wbaes_wbgcm_ee_mode.c b/src/wbaes/wbaes_wbgcm_ee_mode.c
index be7c4bf..84f32f6 100644
--- a/src/wbaes/wbaes_wbgcm_ee_mode.c
+++ b/src/wbaes/wbaes_wbgcm_ee_mode.c
@@ -1,4 +1,5 @@
 #include "wbcrypto/wbaes_wbgcm_ee.h"
+#include <openssl/crypto.h>
 
 static void wbgcm_mult(WBCRYPTO_wbgcm_ee_context *ctx, const unsigned char x[16], unsigned char output[16]) {
     int i;
@@ -285,7 +286,7 @@ int WBCRYPTO_wbaes_wbgcm_ee_finish(WBCRYPTO_wbgcm_ee_context *ctx, unsigned char
 
 void WBCRYPTO_wbaes_wbgcm_ee_free(WBCRYPTO_wbgcm_ee_context *ctx) {
     if (ctx != NULL) {
-        memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_ee_context));
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_wbgcm_ee_context));
         free(ctx);
         ctx = NULL;
     }
diff --git a/src/wbaes/wbaes_wbgcm_mask_mode.c b/src/wbaes/wbaes_wbgcm_mask_mode.c
index d8ae005..3a6dcfa 100644
--- a/src/wbaes/wbaes_wbgcm_mask_mode.c
+++ b/src/wbaes/wbaes_wbgcm_mask_mode.c
@@ -1,4 +1,5 @@
 #include <wbcrypto/wbaes_wbgcm_mask.h>
+#include <openssl/crypto.h>
 
 static void wbgcm_mult(WBCRYPTO_wbgcm_mask_context *ctx, const unsigned char x[16], unsigned char output[16]) {
     int i;
@@ -314,7 +315,7 @@ int WBCRYPTO_wbaes_wbgcm_mask_finish(WBCRYPTO_wbgcm_mask_context *ctx, unsigned
 
 void WBCRYPTO_wbaes_wbgcm_mask_free(WBCRYPTO_wbgcm_mask_context *ctx) {
     if (ctx != NULL) {
-        memset(ctx, 0, sizeof(WBCRYPTO_wbgcm_mask_context));
+        OPENSSL_cleanse(ctx, sizeof(WBCRYPTO_wbgcm_mask_context));
         free(ctx);
         ctx = NULL;
     }
diff --git a/src/wbsm4/wbsm4.c b/src/wbsm4/wbsm4.c
index de7526d..7b9104b 100644
--- a/src/wbsm4/wbsm4.c
+++ b/src/wbsm4/wbsm4.c
@@ -1,4 +1,5 @@
 #include "wbsm4_local.h"
+#include <openssl/crypto.h>
 
 // four tables of one round, with the key material in them erased
 static void release_round(uint32_t **round){
@@ -8,7 +9,7 @@ static void release_round(uint32_t **round){
     }
     for(k=0;k<4;k++){
         if(round[k]!=NULL){
-            memset(round[k], 0, 256*sizeof(uint32_t));
+            OPENSSL_cleanse(round[k], 256*sizeof(uint32_t));
             free(round[k]);
         }
     }
@@ -104,7 +105,7 @@ cleanup:
 void WBCRYPTO_wbsm4_context_free(WBCRYPTO_wbsm4_context *ctx){
     if(ctx!=NULL){
         release_tables(ctx);
-        memset(ctx,0,sizeof(struct wbsm4_context));
+        OPENSSL_cleanse(ctx, sizeof(struct wbsm4_context));
         free(ctx);
     }
 }
-- 
2.43.0


From ce3d1fab5c511468fe9b0714e936ae56a857533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 23/24] fix: FF1 wrote through a failed allocation of its work
 buffer

---
 src/fpe/ff1.c      | 10 ++++++++--
 src/fpe/ff1_cmac.c | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/fpe/ff1.c b/src/fpe/ff1.c
index 27d5332..2c99a03 100644
--- a/src/fpe/ff1.c
+++ b/src/fpe/ff1.c
@@ -38,6 +38,9 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     unsigned char P[16];
     Q = (unsigned char *) malloc(Qlen);
     Bytes = (unsigned char *) malloc(b);
+    if (Q == NULL || Bytes == NULL) {
+        goto cleanup;
+    }
 
     // initialize P
     P[0] = 0x1;
@@ -73,7 +76,7 @@ int WBCRYPTO_ff1_encrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
     S = (unsigned char *) malloc(Slen);
-    if (Q == NULL || Bytes == NULL || S == NULL) {
+    if (S == NULL) {
         goto cleanup;
     }
     for (int i = 0; i < FF1_ROUNDS; ++i) {
@@ -197,6 +200,9 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     unsigned char P[16];
     Q = (unsigned char *) malloc(Qlen);
     Bytes = (unsigned char *) malloc(b);
+    if (Q == NULL || Bytes == NULL) {
+        goto cleanup;
+    }
     // initialize P
     P[0] = 0x1;
     P[1] = 0x2;
@@ -231,7 +237,7 @@ int WBCRYPTO_ff1_decrypt(WBCRYPTO_fpe_context *ctx, const char *input, char *out
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
     S = (unsigned char *) malloc(Slen);
-    if (Q == NULL || Bytes == NULL || S == NULL) {
+    if (S == NULL) {
         goto cleanup;
     }
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
diff --git a/src/fpe/ff1_cmac.c b/src/fpe/ff1_cmac.c
index 67a03f4..5515887 100644
--- a/src/fpe/ff1_cmac.c
+++ b/src/fpe/ff1_cmac.c
@@ -68,6 +68,9 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     unsigned char P[16];
     Q = (unsigned char *) malloc(Qlen);
     Bytes = (unsigned char *) malloc(b);
+    if (Q == NULL || Bytes == NULL) {
+        goto cleanup;
+    }
 
     // initialize P
     P[0] = 0x1;
@@ -108,7 +111,7 @@ int WBCRYPTO_ff1_cmac_encrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
     S = (unsigned char *) malloc(Slen);
-    if (Q == NULL || Bytes == NULL || S == NULL) {
+    if (S == NULL) {
         goto cleanup;
     }
     for (int i = 0; i < FF1_ROUNDS; ++i) {
@@ -248,6 +251,9 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     unsigned char P[16];
     Q = (unsigned char *) malloc(Qlen);
     Bytes = (unsigned char *) malloc(b);
+    if (Q == NULL || Bytes == NULL) {
+        goto cleanup;
+    }
     // initialize P
     P[0] = 0x1;
     P[1] = 0x2;
@@ -287,7 +293,7 @@ int WBCRYPTO_ff1_cmac_decrypt(WBCRYPTO_fpe_mac_context *ctx, const char *input,
     int cnt = ceil2(d, 4) - 1;
     int Slen = 16 + cnt * 16;
     S = (unsigned char *) malloc(Slen);
-    if (Q == NULL || Bytes == NULL || S == NULL) {
+    if (S == NULL) {
         goto cleanup;
     }
     for (int i = FF1_ROUNDS - 1; i >= 0; --i) {
-- 
2.43.0


From 44720ac19a558d3243c0f0644732ac953532e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:02 +0000
Subject: [PATCH 24/24] fix: Chinese FPE accepted malformed UTF-8 and text cut
 off inside a character

---
 src/fpe_app/cn_utf8.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fpe_app/cn_utf8.c b/src/fpe_app/cn_utf8.c
index e98191c..620ba4a 100644
--- a/src/fpe_app/cn_utf8.c
+++ b/src/fpe_app/cn_utf8.c
@@ -11,6 +11,15 @@ int aux_fpe_cn(WBCRYPTO_fpe_app_context *ctx, char *cn, char *sample, char *afte
     int len = strlen(cn) / 3;
     int i, tweak_len = 0;
 
+    // only whole three-byte characters: 1110xxxx 10xxxxxx 10xxxxxx
+    if (strlen(cn) % 3 != 0) {
+        return 0;
+    }
+    for (i = 0; i < len; i++) {
+        if ((cn[3 * i] & 0xf0) != 0xe0 || (cn[3 * i + 1] & 0xc0) != 0x80 || (cn[3 * i + 2] & 0xc0) != 0x80) {
+            return 0;
+        }
+    }
     for (i = 0; i < strlen(sample); i++) {
         if (sample[i] == '*') {
             ++tweak_len;
-- 
2.43.0

