From 11d03281c506b0a3b46c190b6faf3c22280b1687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:19 +0000
Subject: [PATCH 01/36] fix: an empty cipher update is not an error

EVP_CipherUpdate() with a length of zero failed whenever the input pointer
was not NULL, which made otherwise valid streams fail depending on how the
caller cut them.
---
 engine/cipher.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 7f145aa..7f50493 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -57,10 +57,10 @@ static int dstu_cipher_do_cipher(EVP_CIPHER_CTX *ctx, unsigned char *out,
     unsigned char *buf = EVP_CIPHER_CTX_buf_noconst(ctx);
     unsigned char *iv = EVP_CIPHER_CTX_iv_noconst(ctx);
 
-    if ((!inl) && (!in))
+    if (!inl)
         return 0;
 
-    if ((!inl) || (!in))
+    if (!in)
         return -1;
 
     if (num)
-- 
2.43.0


From da056ad066619bbf50332a1c564539b14e307a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:52 +0000
Subject: [PATCH 02/36] fix: keep the S-box and restart the stream when key and
 IV are given separately

Supplying only the key after the IV and S-box were imported from ASN.1
parameters (what CMS and PKCS#5 decryption do) silently went back to the
default S-box and used a key stream of the previous key; setting an S-box
left the position inside the old key stream block.
---
 engine/cipher.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 7f50493..37ff8e2 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -23,23 +23,37 @@
 /* 2 bytes for sequence header, 2 bytes for each octet string header and 8 bytes for iv and 64 bytes for dke. Total 78 < 128 so we are ok with 1 byte length */
 #define DSTU_CIPHER_ASN1_PARAM_SIZE (2 + 2 + DSTU_CIPHER_BLOCK_SIZE + 2 + sizeof(default_sbox))
 
+struct dstu_cipher_data_st
+{
+    gost_ctx gctx; /* has to be the first member */
+    int sbox_set;
+};
+
 static int dstu_cipher_init(EVP_CIPHER_CTX *ctx, const unsigned char *key,
                             const unsigned char *iv, int enc)
 {
     (void) enc; // Unused
     gost_subst_block sbox;
-    gost_ctx *gctx = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    struct dstu_cipher_data_st *data = EVP_CIPHER_CTX_get_cipher_data(ctx);
+    gost_ctx *gctx = &data->gctx;
 
-    unpack_sbox(default_sbox, &sbox);
-    gost_init(gctx, &sbox);
+    /* Key and IV may come in separate calls with the S-box (e.g. from ASN.1 parameters) set in between */
+    if (!data->sbox_set || (key && iv))
+    {
+        unpack_sbox(default_sbox, &sbox);
+        gost_init(gctx, &sbox);
+        data->sbox_set = 1;
+    }
 
     if (key)
         gost_key(gctx, key);
 
     if (iv)
-    {
         memcpy((unsigned char *)EVP_CIPHER_CTX_original_iv(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
-        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), iv, DSTU_CIPHER_BLOCK_SIZE);
+
+    if (key || iv)
+    {
+        memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
         gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
         EVP_CIPHER_CTX_set_num(ctx, 0);
     }
@@ -162,6 +176,7 @@ static int dstu_cipher_ctrl(EVP_CIPHER_CTX *ctx, int cmd, int p1, void *p2)
             gost_init(gctx, &sbox);
             memcpy(EVP_CIPHER_CTX_iv_noconst(ctx), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
             gostcrypt(gctx, EVP_CIPHER_CTX_iv(ctx), EVP_CIPHER_CTX_buf_noconst(ctx));
+            EVP_CIPHER_CTX_set_num(ctx, 0);
             return 1;
         case EVP_CTRL_PBE_PRF_NID:
             if (!p2)
@@ -238,7 +253,7 @@ EVP_CIPHER *dstu_cipher_new()
         !EVP_CIPHER_meth_set_init(res, dstu_cipher_init) ||
         !EVP_CIPHER_meth_set_do_cipher(res, dstu_cipher_do_cipher) ||
         !EVP_CIPHER_meth_set_cleanup(res, dstu_cipher_cleanup) ||
-        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(gost_ctx)) ||
+        !EVP_CIPHER_meth_set_impl_ctx_size(res, sizeof(struct dstu_cipher_data_st)) ||
         !EVP_CIPHER_meth_set_set_asn1_params(res, dstu_cipher_set_asn1_parameters) ||
         !EVP_CIPHER_meth_set_get_asn1_params(res, dstu_cipher_get_asn1_parameters) ||
         !EVP_CIPHER_meth_set_ctrl(res, dstu_cipher_ctrl))
-- 
2.43.0


From e429ccf796a82fe3a21d2ce889553687634145d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:31 +0000
Subject: [PATCH 03/36] fix: reduce the hash to the field before replacing zero
 by one

A hash whose low bits are all zero (only bits beyond the field size set)
became the zero field element: signing then looped forever and verification
rejected valid signatures. An empty input failed for want of a zero-sized
allocation.
---
 engine/sign.c | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/engine/sign.c b/engine/sign.c
index fd20c35..876d828 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -27,25 +27,17 @@ static int bn_truncate_bits(BIGNUM *bn, int bitsize)
 static int hash_to_field(const unsigned char *hash, int hash_len, BIGNUM *fe,
                          int fieldsize)
 {
-    unsigned char *h = OPENSSL_malloc(hash_len);
-    int i;
-    if (!h)
+    if (!BN_lebin2bn(hash, hash_len, fe))
         return 0;
 
-    for (i = 0; i < hash_len; i++)
-        h[i] = hash[hash_len - 1 - i];
-
-    if (!BN_bin2bn(h, hash_len, fe))
-    {
-        OPENSSL_free(h);
+    if (!bn_truncate_bits(fe, fieldsize))
         return 0;
-    }
 
-    OPENSSL_free(h);
+    /* Only after truncation: a zero field element can never be signed */
     if (BN_is_zero(fe))
-        BN_one(fe);
+        return BN_one(fe);
 
-    return bn_truncate_bits(fe, fieldsize);
+    return 1;
 }
 
 static int field_to_bn(BIGNUM *fe, const BIGNUM *order)
-- 
2.43.0


From 529c498227ddbaf58770679801755e9519847730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:58 +0000
Subject: [PATCH 04/36] fix: draw another nonce when the random source yields
 zero

A zero nonce made signing fail with 'point at infinity' instead of trying
the next one. The number of attempts is bounded, so that signing terminates
for keys with a degenerate order as well.
---
 engine/sign.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/engine/sign.c b/engine/sign.c
index 876d828..b958ab3 100644
--- a/engine/sign.c
+++ b/engine/sign.c
@@ -12,6 +12,8 @@
 #include <openssl/ec.h>
 #include <openssl/obj_mac.h>
 
+#define MAX_NONCE_ATTEMPTS 1000
+
 static int bn_truncate_bits(BIGNUM *bn, int bitsize)
 {
     int num_bits = BN_num_bits(bn);
@@ -53,7 +55,7 @@ int dstu_do_sign(const EC_KEY* key, const unsigned char *tbs, size_t tbslen,
     BIGNUM *e, *Fe, *h, *r, *s, *n, *p;
     BN_CTX *ctx = NULL;
     EC_POINT *eG = NULL;
-    int field_size, ret = 0;
+    int field_size, attempts = 0, ret = 0;
 
     if (!d || !group)
         return 0;
@@ -103,13 +105,19 @@ int dstu_do_sign(const EC_KEY* key, const unsigned char *tbs, size_t tbslen,
         {
             do
             {
+                /* On a sane curve the first one is good, do not try forever on others */
+                if (attempts++ >= MAX_NONCE_ATTEMPTS)
+                    goto err;
+
                 if (!BN_rand_range(e, n))
                     goto err;
 
                 if (!EC_POINT_mul(group, eG, e, NULL, NULL, ctx))
                     goto err;
 
-                if (!EC_POINT_get_affine_coordinates_GF2m(group, eG, Fe, NULL,
+                if (EC_POINT_is_at_infinity(group, eG))
+                    BN_zero(Fe);
+                else if (!EC_POINT_get_affine_coordinates_GF2m(group, eG, Fe, NULL,
                     ctx))
                     goto err;
             }
-- 
2.43.0


From 89f20e987dbb59735d502de8a381bb6c3a010425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:57 +0000
Subject: [PATCH 05/36] fix: a key without a table equals one with the default
 table

---
 engine/ameth.c | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index d4b74cd..117d234 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -139,16 +139,11 @@ static int dstu_asn1_param_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (!first || !second)
         return -2;
 
-    if (first->sbox != second->sbox)
-    {
-        if (first->sbox && second->sbox)
-        {
-            if (memcmp(first->sbox, second->sbox, sizeof(default_sbox)))
-                return 0;
-        }
-        else
-            return 0;
-    }
+    /* No sbox means the default one */
+    if (memcmp(first->sbox ? first->sbox : default_sbox,
+               second->sbox ? second->sbox : default_sbox,
+               sizeof(default_sbox)))
+        return 0;
 
     if (EC_GROUP_cmp(EC_KEY_get0_group(first->ec),
                      EC_KEY_get0_group(second->ec), NULL))
-- 
2.43.0


From 2d9decf760263f2811c939d41b4da6c7c7531435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:39 +0000
Subject: [PATCH 06/36] fix: recognise a curve given as a group whatever its
 cofactor

---
 engine/pmeth.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index 0c0592f..7d37ff3 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -154,6 +154,16 @@ static int dstu_pkey_ctrl(EVP_PKEY_CTX *ctx, int type, int p1, void *p2)
             if (!group)
                 return 0;
 
+            /* DSTU domain parameters have no cofactor: all other groups are created with 1 */
+            if (!EC_GROUP_set_generator(group,
+                                        EC_GROUP_get0_generator((EC_GROUP*) p2),
+                                        EC_GROUP_get0_order((EC_GROUP*) p2),
+                                        BN_value_one()))
+            {
+                EC_GROUP_free(group);
+                return 0;
+            }
+
             DSTU_KEY_CTX_set(dstu_ctx, group, NULL);
             return 1;
         case EVP_PKEY_CTRL_MD:
-- 
2.43.0


From 2ebe14d7008bef52753b8ff1a903c153f072402f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:49 +0000
Subject: [PATCH 07/36] fix: refuse a table string with trailing characters

---
 engine/pmeth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/pmeth.c b/engine/pmeth.c
index 7d37ff3..8703939 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -210,6 +210,10 @@ static int dstu_pkey_ctrl_str(EVP_PKEY_CTX *ctx, const char *type,
 
     if (!strcmp(SBOX_PARAM_STR, type))
     {
+        /* BN_hex2bn stops at the first character that is not a digit */
+        if ((sizeof(default_sbox) * 2) != strlen(value))
+            return 0;
+
         tmp = BN_new();
         if (!tmp)
             return 0;
-- 
2.43.0


From 02a28d73d90d8f066d6a53348605698af458aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:19 +0000
Subject: [PATCH 08/36] fix: comparing a key that has parameters only does not
 crash

---
 engine/ameth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index 117d234..666710c 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -631,6 +631,10 @@ static int dstu_asn1_pub_cmp(const EVP_PKEY *a, const EVP_PKEY *b)
     if (!first || !second)
         return -2;
 
+    /* Keys with parameters only have no point */
+    if (!EC_KEY_get0_public_key(first->ec) || !EC_KEY_get0_public_key(second->ec))
+        return -2;
+
     /* We do not compare sboxes here because it will be done in params_cmp by EVP API */
 
     if (EC_POINT_cmp(EC_KEY_get0_group(first->ec),
-- 
2.43.0


From 4580e002cbc3528807c7e77d9db79acd291e2390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:59 +0000
Subject: [PATCH 09/36] fix: printing a key without material does not crash

---
 engine/ameth.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index 666710c..1aac42f 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -161,9 +161,13 @@ static int dstu_asn1_param_print(BIO *out, const EVP_PKEY *pkey, int indent,
 
     (void) pctx; // Unused
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
     {
+        EVP_PKEY_free(pk);
         DSTUerr(DSTU_F_DSTU_ASN1_PARAM_PRINT, ERR_R_EVP_LIB);
         return 0;
     }
@@ -695,9 +699,15 @@ static int dstu_asn1_priv_print(BIO *out, const EVP_PKEY *pkey, int indent,
     EVP_PKEY *pk;
     int ret;
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
+    {
+        EVP_PKEY_free(pk);
         return 0;
+    }
 
     ret = EVP_PKEY_print_private(out, pk, indent, pctx);
 
@@ -713,9 +723,15 @@ static int dstu_asn1_pub_print(BIO *out, const EVP_PKEY *pkey, int indent,
     EVP_PKEY *pk;
     int ret;
 
+    if (!dstu_key)
+        return 0;
+
     pk = EVP_PKEY_new();
     if (!pk || !EVP_PKEY_set1_EC_KEY(pk, dstu_key->ec))
+    {
+        EVP_PKEY_free(pk);
         return 0;
+    }
 
     ret = EVP_PKEY_print_public(out, pk, indent, pctx);
 
-- 
2.43.0


From 689bafd4b13e89ea34690c1c1b8da72bf824f417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:05 +0000
Subject: [PATCH 10/36] fix: refuse a private key whose public point is at
 infinity

---
 dstulib/params.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dstulib/params.c b/dstulib/params.c
index f82780b..0c39d1b 100644
--- a/dstulib/params.c
+++ b/dstulib/params.c
@@ -541,7 +541,7 @@ int dstu_add_public_key(EC_KEY *key)
     const BIGNUM *prk = EC_KEY_get0_private_key(key);
     int ret = 0;
 
-    if (!group || !prk)
+    if (!group || !prk || BN_is_zero(prk))
         return 0;
 
     pbk = EC_POINT_new(group);
@@ -551,6 +551,10 @@ int dstu_add_public_key(EC_KEY *key)
     if (!EC_POINT_mul(group, pbk, prk, NULL, NULL, NULL))
         goto err;
 
+    /* The private key is a multiple of the order */
+    if (EC_POINT_is_at_infinity(group, pbk))
+        goto err;
+
     if (!EC_POINT_invert(group, pbk, NULL))
         goto err;
 
-- 
2.43.0


From 35068a139534e92d249a16d582572a253309f8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:33 +0000
Subject: [PATCH 11/36] fix: refuse explicit parameters that do not define a
 curve

---
 dstulib/key.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dstulib/key.c b/dstulib/key.c
index aef4155..0496479 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -316,6 +316,10 @@ EC_GROUP *group_from_asn1(const DSTU_CustomCurveSpec* spec, int is_little_endian
     if (!group)
         goto err;
 
+    /* A zero b does not define a curve */
+    if (!EC_GROUP_check_discriminant(group, ctx))
+        goto err;
+
     g = EC_POINT_new(group);
     if (!g)
         goto err;
-- 
2.43.0


From 38ccb7e509bb79d86e3c76dad0cae3398324478a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:45 +0000
Subject: [PATCH 12/36] fix: skip the alias and the timestamp of a trusted
 certificate entry

---
 keylib/jks.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 3d1dd86..f8e85fc 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -325,12 +325,14 @@ static const void* parseKey(const void* data, const char* keyPass, size_t keyPas
 static const void* parseEntry(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
     uint32_t tag = ntohl(read32(data, 0));
+    uint16_t nameLength = 0;
     switch (tag)
     {
         case JKS_ENTRY_PRIVATE_KEY:
             return parseKey(ptrAt(data, sizeof(tag)), keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
-            return parseCert(ptrAt(data, sizeof(tag)), ks, certPos);
+            nameLength = ntohs(read16(data, sizeof(tag)));
+            return parseCert(ptrAt(data, sizeof(tag) + sizeof(nameLength) + nameLength + 8), ks, certPos); // 8 bytes - 64-bit timestamp
     }
     return NULL;
 }
-- 
2.43.0


From b6395d2b095a4587075bd91f0af3043ac0b683da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:06 +0000
Subject: [PATCH 13/36] fix: the Java key store reader stays inside its input

---
 keylib/jks.c | 87 +++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 65 insertions(+), 22 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index f8e85fc..0db0c98 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -33,6 +33,11 @@ static void copyAt(const void* base, size_t shift, void* dest, size_t size)
     memcpy(dest, ptrAt(base, shift), size);
 }
 
+static size_t left(const void* data, const void* end)
+{
+    return (const unsigned char*)end - (const unsigned char*)data;
+}
+
 static uint16_t read16(const void* base, size_t shift)
 {
     uint16_t res = 0;
@@ -141,13 +146,23 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
     return ok;
 }
 
-static const void* parseCert(const void* data, KeyStore* ks, size_t* certPos)
+static const void* parseCert(const void* data, const void* end, KeyStore* ks, size_t* certPos)
 {
-    uint16_t typeLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+    uint16_t typeLength = 0;
+    uint32_t dataLength = 0;
+    const unsigned char* dataPtr = NULL;
     X509* x509 = NULL;
 
+    if (left(data, end) < sizeof(typeLength))
+        return NULL;
+    typeLength = ntohs(read16(data, 0));
+    if (left(data, end) < sizeof(typeLength) + typeLength + sizeof(dataLength))
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(typeLength) + typeLength));
+    if (left(data, end) - (sizeof(typeLength) + typeLength + sizeof(dataLength)) < dataLength)
+        return NULL;
+    dataPtr = ptrAt(data, sizeof(typeLength) + typeLength + sizeof(dataLength));
+
     x509 = d2i_X509(NULL, &dataPtr, dataLength);
     if (x509 == NULL)
         return NULL;
@@ -169,7 +184,7 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 {
     const size_t saltLength = 20;
     const size_t digestLength = 20;
-    const size_t encryptedLength = size - saltLength - digestLength;
+    const size_t encryptedLength = size < saltLength + digestLength ? 0 : size - saltLength - digestLength;
     const size_t rounds = encryptedLength % digestLength > 0 ? 1 + encryptedLength / digestLength : encryptedLength / digestLength;
     const unsigned char* encrypted = ptrAt(data, saltLength);
     unsigned char* decrypted = NULL;
@@ -180,6 +195,9 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     size_t pos = 0;
     int r = 0;
 
+    if (encryptedLength == 0)
+        return 0;
+
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
@@ -301,38 +319,58 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     return 1;
 }
 
-static const void* parseKey(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseKey(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint16_t nameLength = ntohs(read16(data, 0));
-    uint32_t dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8)); // 8 bytes - 64-bit timestamp
-    uint32_t certNum = ntohl(read32(data, sizeof(nameLength) + nameLength + 8 + 4 + dataLength));
-    const unsigned char* dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
-    const unsigned char* certPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength) + dataLength + sizeof(certNum));
+    uint16_t nameLength = 0;
+    uint32_t dataLength = 0;
+    uint32_t certNum = 0;
+    const unsigned char* dataPtr = NULL;
+    const unsigned char* certPtr = NULL;
     size_t i = 0;
 
+    if (left(data, end) < sizeof(nameLength))
+        return NULL;
+    nameLength = ntohs(read16(data, 0));
+    if (left(data, end) < sizeof(nameLength) + nameLength + 8 + sizeof(dataLength)) // 8 bytes - 64-bit timestamp
+        return NULL;
+    dataLength = ntohl(read32(data, sizeof(nameLength) + nameLength + 8));
+    dataPtr = ptrAt(data, sizeof(nameLength) + nameLength + 8 + sizeof(dataLength));
+    if (left(dataPtr, end) < dataLength || left(dataPtr, end) - dataLength < sizeof(certNum))
+        return NULL;
+    certNum = ntohl(read32(dataPtr, dataLength));
+    certPtr = ptrAt(dataPtr, dataLength + sizeof(certNum));
+
     if (decryptKey(dataPtr, dataLength, keyPass, keyPassSize, ks, keyPos, certPos) == 0)
         return NULL;
 
     for (i = 0; i < certNum; ++i)
     {
-        certPtr = parseCert(certPtr, ks, certPos);
+        certPtr = parseCert(certPtr, end, ks, certPos);
         if (certPtr == NULL)
             return NULL;
     }
     return certPtr;
 }
 
-static const void* parseEntry(const void* data, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
+static const void* parseEntry(const void* data, const void* end, const char* keyPass, size_t keyPassSize, KeyStore* ks, size_t* keyPos, size_t* certPos)
 {
-    uint32_t tag = ntohl(read32(data, 0));
+    uint32_t tag = 0;
     uint16_t nameLength = 0;
+
+    if (left(data, end) < sizeof(tag))
+        return NULL;
+    tag = ntohl(read32(data, 0));
     switch (tag)
     {
         case JKS_ENTRY_PRIVATE_KEY:
-            return parseKey(ptrAt(data, sizeof(tag)), keyPass, keyPassSize, ks, keyPos, certPos);
+            return parseKey(ptrAt(data, sizeof(tag)), end, keyPass, keyPassSize, ks, keyPos, certPos);
         case JKS_ENTRY_CERT:
+            if (left(data, end) < sizeof(tag) + sizeof(nameLength))
+                return NULL;
             nameLength = ntohs(read16(data, sizeof(tag)));
-            return parseCert(ptrAt(data, sizeof(tag) + sizeof(nameLength) + nameLength + 8), ks, certPos); // 8 bytes - 64-bit timestamp
+            if (left(data, end) < sizeof(tag) + sizeof(nameLength) + nameLength + 8) // 8 bytes - 64-bit timestamp
+                return NULL;
+            return parseCert(ptrAt(data, sizeof(tag) + sizeof(nameLength) + nameLength + 8), end, ks, certPos);
     }
     return NULL;
 }
@@ -340,9 +378,10 @@ static const void* parseEntry(const void* data, const char* keyPass, size_t keyP
 int parseJKS(const void* data, size_t size, const char* storagePass, size_t storagePassSize, const char* keyPass, size_t keyPassSize, KeyStore** ks)
 {
     const size_t digestLength = 20;
-    uint32_t magic = read32(data, 0);
-    uint32_t entries = ntohl(read32(data, sizeof(magic) + 4)); // 4 bytes - 32-bit version
-    const unsigned char* entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
+    uint32_t magic = 0;
+    uint32_t entries = 0;
+    const unsigned char* entryPtr = NULL;
+    const void* end = ptrAt(data, size);
     unsigned char digest[digestLength];
     size_t i = 0;
     size_t j = 0;
@@ -351,7 +390,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     size_t keyPos = 0;
     size_t certPos = 0;
 
-    (void) size; // Unused
+    if (size < sizeof(magic) + 4 + sizeof(entries)) // 4 bytes - 32-bit version
+        return 0;
+    magic = read32(data, 0);
+    entries = ntohl(read32(data, sizeof(magic) + 4));
+    entryPtr = ptrAt(data, sizeof(magic) + 4 + sizeof(entries));
 
     // Check MAGIC
     if (magic != 0xedfeedfe && // JKS
@@ -368,12 +411,12 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
 
     for (i = 0; i < entries; ++i)
     {
-        entryPtr = parseEntry(entryPtr, keyPass, keyPassSize, *ks, &keyPos, &certPos);
+        entryPtr = parseEntry(entryPtr, end, keyPass, keyPassSize, *ks, &keyPos, &certPos);
         if (entryPtr == NULL)
             break;
     }
 
-    if (entryPtr == NULL)
+    if (entryPtr == NULL || left(entryPtr, end) < digestLength)
     {
         KeyStoreFree(*ks);
         return 0;
-- 
2.43.0


From 494a99aef4f9abce5cd575d2e4d1e22f7b8147fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:16 +0000
Subject: [PATCH 14/36] fix: a failed read leaves no pointer to a released
 store and no password behind

---
 keylib/jks.c    | 4 ++++
 keylib/pkcs12.c | 1 +
 2 files changed, 5 insertions(+)

diff --git a/keylib/jks.c b/keylib/jks.c
index 0db0c98..6958e0a 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -419,12 +419,15 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     if (entryPtr == NULL || left(entryPtr, end) < digestLength)
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
+        OPENSSL_free(pwd16);
         return 0;
     }
 
     if (whiteHash(pwd16, pwd16Length, data, entryPtr - (const unsigned char*)data, digest) == 0)
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
         OPENSSL_free(pwd16);
         return 0;
     }
@@ -434,6 +437,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
         if (digest[j] != entryPtr[j])
         {
             KeyStoreFree(*ks);
+            *ks = NULL;
             return 0;
         }
 
diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index 48c5e2b..e6414e1 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -203,6 +203,7 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
     if (fromSafes(safes, password, passSize, *ks, &keyPos, &certPos) == 0)
     {
         KeyStoreFree(*ks);
+        *ks = NULL;
         sk_PKCS7_pop_free(safes, PKCS7_free);
         PKCS12_free(pkcs12);
         return 0;
-- 
2.43.0


From 563392ecf7b114cf72d21abf10a154a1a4c076b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:29 +0000
Subject: [PATCH 15/36] fix: a protected entry that is not a key is refused,
 not dereferenced

---
 keylib/jks.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 6958e0a..53f58d6 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -66,7 +66,8 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     size_t r = 0;
     if (cd == (iconv_t)-1)
     {
-        OPENSSL_free(res);
+        OPENSSL_free(buf);
+        BIO_free(res);
         return 0;
     }
     while (ss > 0)
@@ -241,10 +242,9 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
             *keyPos += KeyStoreKeyNum(tks);
         if (certPos != NULL)
             *certPos += KeyStoreCertNum(tks);
+        KeyStoreFree(tks);
     }
 
-    KeyStoreFree(tks);
-
     OPENSSL_free(decrypted);
     return r;
 }
-- 
2.43.0


From 4861cbcfb7c4aee6823a1cd359a7d66018808f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:18 +0000
Subject: [PATCH 16/36] fix: a second key on a malformed curve is refused, not
 dereferenced

---
 keylib/utils.c | 83 ++------------------------------------------------
 1 file changed, 3 insertions(+), 80 deletions(-)

diff --git a/keylib/utils.c b/keylib/utils.c
index 3af2aae..d507781 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -5,7 +5,6 @@
 #include "attrcurvespec_asn1.h"
 
 #include "asn1.h"
-#include "compress.h"
 #include "key.h"
 #include "params.h"
 
@@ -69,83 +68,7 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     return res;
 }
 
-static BIGNUM* makePoly(BN_CTX* ctx, const DSTU_BinaryField* field)
-{
-    BIGNUM* res = BN_CTX_get(ctx);
-    int poly[6];
-    poly[0] = ASN1_INTEGER_get(field->m);
-    if (field->poly->type == 0)
-    {
-        // Trinominal
-        poly[1] = ASN1_INTEGER_get(field->poly->poly.k);
-        poly[2] = 0;
-        poly[3] = -1;
-    }
-    else
-    {
-        // Pentanominal
-        poly[1] = ASN1_INTEGER_get(field->poly->poly.pentanomial->k);
-        poly[2] = ASN1_INTEGER_get(field->poly->poly.pentanomial->j);
-        poly[3] = ASN1_INTEGER_get(field->poly->poly.pentanomial->l);
-        poly[4] = 0;
-        poly[5] = -1;
-    }
-    if (BN_GF2m_arr2poly(poly, res) == 0)
-        return NULL;
-    return res;
-}
-
-static EC_POINT* makePoint(BN_CTX* ctx, const EC_GROUP* group, const ASN1_OCTET_STRING* p)
-{
-    (void) ctx;
-    EC_POINT* res = EC_POINT_new(group);
-    if (dstu_point_expand(ASN1_STRING_get0_data(p), ASN1_STRING_length(p), group, res) == 0)
-    {
-        EC_POINT_free(res);
-        return NULL;
-    }
-    return res;
-}
-
-static EC_GROUP* makeECGROUPFromSpec(BN_CTX* ctx, const DSTU_CustomCurveSpec* spec)
-{
-    BIGNUM* poly = makePoly(ctx, spec->field);
-    BIGNUM* a = BN_CTX_get(ctx);
-    BIGNUM* b = BN_bin2bn(ASN1_STRING_get0_data(spec->b), ASN1_STRING_length(spec->b), BN_CTX_get(ctx));
-    BIGNUM* n = BN_CTX_get(ctx);
-    EC_POINT* point = NULL;
-    EC_GROUP* res = NULL;
-
-    ASN1_INTEGER_to_BN(spec->a, a);
-
-    res = EC_GROUP_new_curve_GF2m(poly, a, b, ctx);
-
-    if (res == NULL)
-        return NULL;
-
-    point = makePoint(ctx, res, spec->bp);
-    if (point == NULL)
-    {
-        EC_GROUP_free(res);
-        return NULL;
-    }
-    if (EC_POINT_is_on_curve(res, point, ctx) == 0)
-    {
-        EC_POINT_free(point);
-        EC_GROUP_free(res);
-        return NULL;
-    }
-    ASN1_INTEGER_to_BN(spec->n, n);
-    if (EC_GROUP_set_generator(res, point, n, BN_value_one()) == 0)
-    {
-        EC_GROUP_free(res);
-        res = NULL;
-    }
-    EC_POINT_free(point);
-    return res;
-}
-
-static EC_GROUP* makeECGROUP(BN_CTX* ctx, X509_ATTRIBUTE* attr)
+static EC_GROUP* makeECGROUP(X509_ATTRIBUTE* attr)
 {
     DSTU_AttrCurveSpec* spec = NULL;
     int count = X509_ATTRIBUTE_count(attr);
@@ -165,7 +88,7 @@ static EC_GROUP* makeECGROUP(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     if (spec == NULL)
         return NULL;
 
-    res = makeECGROUPFromSpec(ctx, spec->spec);
+    res = group_from_asn1(spec->spec, 0);
     DSTU_AttrCurveSpec_free(spec);
     return res;
 }
@@ -181,7 +104,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     BN_CTX_start(ctx);
 
     pkNum = getPrivateKeyNum(ctx, keyAttr);
-    group = makeECGROUP(ctx, curveAttr);
+    group = makeECGROUP(curveAttr);
     if (pkNum == NULL || group == NULL)
     {
         BN_CTX_end(ctx);
-- 
2.43.0


From d1310c9f99d1ba99033ddc2982372988755847d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:47 +0000
Subject: [PATCH 17/36] fix: a Key-6 payload ends where its last whole block
 ends

---
 keylib/key6.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/keylib/key6.c b/keylib/key6.c
index 43d2415..8a5f9f1 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -45,11 +45,17 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
     gost_subst_block sbox;
     unsigned char key[32];
     const size_t sourceSize = size + padSize;
-    const size_t resSize = sourceSize + 8;
+    const size_t resSize = sourceSize / 8 * 8; // Only whole blocks are decrypted
     unsigned char* source = OPENSSL_malloc(sourceSize);
     unsigned char* res = OPENSSL_malloc(resSize);
     int r = 0;
 
+    if (resSize == 0)
+    {
+        OPENSSL_clear_free(source, sourceSize);
+        return 0;
+    }
+
     unpack_sbox(default_sbox, &sbox);
     gost_init(&ctx, &sbox);
     pkdf(password, passSize, key);
-- 
2.43.0


From 2adf9b32d34c63987b4da9d0be21638f7f4cb2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:51 +0000
Subject: [PATCH 18/36] fix: keep the generator's lock across cleanup

The cleanup callback destroyed the lock, which is created only once: every
request after a cleanup used released memory (and typically never returned).
The lock lives as long as the module.
---
 engine/rbg.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/engine/rbg.c b/engine/rbg.c
index f7912a0..3b487b4 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -159,7 +159,6 @@ static void dstu_rbg_cleanup(void)
     initialized = 0;
 
     dstu_unlock();
-    CRYPTO_THREAD_lock_free(dstu_rand_lock);
 }
 
 RAND_METHOD dstu_rand_meth =
-- 
2.43.0


From 35909499186d8d0b7225fa4b0540025aeaef6597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:07 +0000
Subject: [PATCH 19/36] fix: release the digest and cipher when the engine is
 destroyed, not when it is finished

ENGINE_finish released them although the engine stays loaded: initialising it
again used released memory, finishing it again released it twice. When the
engine was never initialised, unloading it left the names of the algorithms
and the error strings pointing into the unmapped module.
---
 engine/dstu.c | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index 767705f..8fa5171 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -94,8 +94,38 @@ static int dstu_engine_init(ENGINE *e)
 static int dstu_engine_finish(ENGINE *e)
 {
     (void) e; // Unused
-    dstu_cipher_free(dstu_cipher);
+    return 1;
+}
+
+static void dstu_remove_name(int nid, int type, const void *method)
+{
+    if ((const void*)OBJ_NAME_get(OBJ_nid2sn(nid), type) == method)
+        OBJ_NAME_remove(OBJ_nid2sn(nid), type);
+    if ((const void*)OBJ_NAME_get(OBJ_nid2ln(nid), type) == method)
+        OBJ_NAME_remove(OBJ_nid2ln(nid), type);
+}
+
+/* Called when the last reference to the engine goes. OpenSSL has already released the methods it got from
+ * dstu_pkey_meths and dstu_asn1_meths. */
+static int dstu_engine_destroy(ENGINE *e)
+{
+    unsigned long long i = 0;
+    (void) e; // Unused
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+    {
+        dstu_pkey_methods[i] = NULL;
+        dstu_asn1_methods[i] = NULL;
+    }
+
+    if (dstu_md != NULL)
+        dstu_remove_name(NID_dstu34311, OBJ_NAME_TYPE_MD_METH, dstu_md);
     dstu_digest_free(dstu_md);
+    dstu_md = NULL;
+
+    if (dstu_cipher != NULL)
+        dstu_remove_name(NID_dstu28147_cfb, OBJ_NAME_TYPE_CIPHER_METH, dstu_cipher);
+    dstu_cipher_free(dstu_cipher);
+    dstu_cipher = NULL;
 
     ERR_unload_DSTU_strings();
 
@@ -191,6 +221,7 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_set_name(e, engine_dstu_name) ||
         !ENGINE_set_init_function(e, dstu_engine_init) ||
         !ENGINE_set_finish_function(e, dstu_engine_finish) ||
+        !ENGINE_set_destroy_function(e, dstu_engine_destroy) ||
         !ENGINE_set_digests(e, dstu_digests) ||
         !ENGINE_set_ciphers(e, dstu_ciphers) ||
         !ENGINE_set_RAND(e, &dstu_rand_meth) ||
-- 
2.43.0


From ac81b610ba00b6e2040080542e0d4112ca69535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:57 +0000
Subject: [PATCH 20/36] fix: mask the last byte of a MAC whose length is not a
 whole number of bytes

The shift was written as a comparison: the mask was 0 or -1.
---
 dstulib/gost/gost89.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dstulib/gost/gost89.c b/dstulib/gost/gost89.c
index 337204b..487f78b 100644
--- a/dstulib/gost/gost89.c
+++ b/dstulib/gost/gost89.c
@@ -575,7 +575,7 @@ void get_mac(byte * buffer, int nbits, byte * out)
 {
     int nbytes = nbits >> 3;
     int rembits = nbits & 7;
-    int mask = rembits ? ((1 < rembits) - 1) : 0;
+    int mask = rembits ? ((1 << rembits) - 1) : 0;
     int i;
     for (i = 0; i < nbytes; i++)
         out[i] = buffer[i];
-- 
2.43.0


From 1776689f538ce71caf828fa2f4d47c8b03b6e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:25 +0000
Subject: [PATCH 21/36] fix: release the encoded parameters when a private key
 cannot be encoded

---
 engine/ameth.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/engine/ameth.c b/engine/ameth.c
index 1aac42f..25ed00a 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -330,6 +330,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     reverse_bytes(prk_encoded, prk_encoded_bytes);
 
     ASN1_STRING_set0(params, encoded_params, encoded_params_bytes);
+    encoded_params = NULL;
 
     if (PKCS8_pkey_set0(p8, OBJ_nid2obj(algnid), 0, V_ASN1_SEQUENCE, params,
                         prk_encoded, prk_encoded_bytes))
@@ -345,6 +346,9 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
 
     err:
 
+    if (encoded_params)
+        OPENSSL_free(encoded_params);
+
     if (prk_encoded)
         OPENSSL_free(prk_encoded);
 
-- 
2.43.0


From 006497fa0e127cbbaef8ca4893a8026d8eba8415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:25 +0000
Subject: [PATCH 22/36] fix: release the curve and the key when the second key
 of a Key-6 payload is refused

---
 keylib/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/keylib/utils.c b/keylib/utils.c
index d507781..645b1f7 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -107,6 +107,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     group = makeECGROUP(curveAttr);
     if (pkNum == NULL || group == NULL)
     {
+        EC_GROUP_free(group);
         BN_CTX_end(ctx);
         BN_CTX_free(ctx);
         return NULL;
@@ -127,6 +128,7 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
         EC_KEY_set_private_key(key->ec, pkNum) == 0 ||
         dstu_add_public_key(key->ec) == 0)
     {
+        EVP_PKEY_free(res);
         DSTU_KEY_free(key);
         EC_GROUP_free(group);
         BN_CTX_end(ctx);
-- 
2.43.0


From 0f7dc823685cfd2c75acdbdb4817047e18bad3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:42 +0000
Subject: [PATCH 23/36] fix: make the key methods while the engine is loaded,
 not when first asked for

---
 engine/dstu.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/engine/dstu.c b/engine/dstu.c
index 8fa5171..5229ee3 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -212,6 +212,19 @@ static int dstu_asn1_meths(ENGINE *e, EVP_PKEY_ASN1_METHOD **ameth,
     return 0;
 }
 
+/* The methods are made while the engine is loaded: OpenSSL asks for them from any thread, without a lock. */
+static int dstu_methods_make()
+{
+    unsigned long long i = 0;
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+    {
+        if (!dstu_pkey_meth_get(dstu_nids[i]) || !dstu_asn1_meth_get(dstu_nids[i]))
+            return 0;
+    }
+
+    return 1;
+}
+
 static int dstu_bind(ENGINE *e, const char *id)
 {
     if (id && strcmp(id, engine_dstu_id))
@@ -228,6 +241,7 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_set_pkey_meths(e, dstu_pkey_meths) ||
         !ENGINE_set_pkey_asn1_meths(e, dstu_asn1_meths) ||
         !ENGINE_set_flags(e, DSTU_ENGINE_FLAGS) ||
+        !dstu_methods_make() ||
         !ENGINE_register_digests(e) ||
         !ENGINE_register_ciphers(e) ||
         !ENGINE_register_pkey_meths(e) ||
-- 
2.43.0


From 017dc946ce31528743a49795db1a6536536c940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:01 +0000
Subject: [PATCH 24/36] fix: a key protected in an unknown way makes the Java
 key store reader fail, not leave it out

---
 keylib/jks.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/keylib/jks.c b/keylib/jks.c
index 53f58d6..4b831e3 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -310,6 +310,14 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
             return 0;
         }
     }
+    else // Unknown protection
+    {
+        ASN1_OBJECT_free(pbes1);
+        ASN1_OBJECT_free(keyProtector);
+        X509_SIG_free(epkInfo);
+        OPENSSL_free(pwd16);
+        return 0;
+    }
 
     ASN1_OBJECT_free(pbes1);
     ASN1_OBJECT_free(keyProtector);
-- 
2.43.0


From 949b135359a78444431ff3bb8be4da337338b5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 25/36] fix: a store that cannot be allocated or grown is an
 error

---
 keylib/keystore.c          | 31 ++++++++++++++++++++++++++++---
 keylib/keystore_internal.h |  2 +-
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/keylib/keystore.c b/keylib/keystore.c
index 2bfbc69..590992a 100644
--- a/keylib/keystore.c
+++ b/keylib/keystore.c
@@ -17,10 +17,19 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
 {
     size_t i = 0;
     KeyStore* res = OPENSSL_malloc(sizeof(KeyStore));
+    if (res == NULL)
+        return NULL;
+    res->certNum = 0;
+    res->certs = NULL;
     if (keyNum > 0)
     {
         res->keyNum = keyNum;
         res->keys = OPENSSL_malloc(keyNum * sizeof(EVP_PKEY*));
+        if (res->keys == NULL)
+        {
+            KeyStoreFree(res);
+            return NULL;
+        }
         for (i = 0; i < keyNum; ++i)
             res->keys[i] = NULL;
     }
@@ -33,6 +42,11 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
     {
         res->certNum = certNum;
         res->certs = OPENSSL_malloc(certNum * sizeof(X509*));
+        if (res->certs == NULL)
+        {
+            KeyStoreFree(res);
+            return NULL;
+        }
         for (i = 0; i < certNum; ++i)
             res->certs[i] = NULL;
     }
@@ -44,12 +58,17 @@ KeyStore* KeyStoreNew(size_t keyNum, size_t certNum)
     return res;
 }
 
-void KeyStoreAppend(KeyStore* to, KeyStore* from)
+int KeyStoreAppend(KeyStore* to, KeyStore* from)
 {
     size_t i = 0;
+    EVP_PKEY** keys = NULL;
+    X509** certs = NULL;
     if (from->keyNum > 0)
     {
-        to->keys = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
+        keys = OPENSSL_clear_realloc(to->keys, to->keyNum * sizeof(EVP_PKEY*), (to->keyNum + from->keyNum) * sizeof(EVP_PKEY*));
+        if (keys == NULL)
+            return 0;
+        to->keys = keys;
         for (i = 0; i < from->keyNum; ++i)
         {
             to->keys[to->keyNum + i] = from->keys[i];
@@ -59,7 +78,10 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
     }
     if (from->certNum > 0)
     {
-        to->certs = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
+        certs = OPENSSL_clear_realloc(to->certs, to->certNum * sizeof(X509*), (to->certNum + from->certNum) * sizeof(X509*));
+        if (certs == NULL)
+            return 0;
+        to->certs = certs;
         for (i = 0; i < from->certNum; ++i)
         {
             to->certs[to->certNum + i] = from->certs[i];
@@ -67,11 +89,14 @@ void KeyStoreAppend(KeyStore* to, KeyStore* from)
         }
         to->certNum += from->certNum;
     }
+    return 1;
 }
 
 void KeyStoreFree(KeyStore* ks)
 {
     size_t i = 0;
+    if (ks == NULL)
+        return;
     if (ks->keys != NULL)
     {
         for (i = 0; i < ks->keyNum; ++i)
diff --git a/keylib/keystore_internal.h b/keylib/keystore_internal.h
index 7c20726..146edfa 100644
--- a/keylib/keystore_internal.h
+++ b/keylib/keystore_internal.h
@@ -8,7 +8,7 @@ extern "C" {
 
 KeyStore* KeyStoreNew(size_t keyNum, size_t certNum);
 
-void KeyStoreAppend(KeyStore* to, KeyStore* from);
+int KeyStoreAppend(KeyStore* to, KeyStore* from);
 
 void KeyStoreSetKey(KeyStore* ks, size_t pos, EVP_PKEY* key);
 void KeyStoreSetCert(KeyStore* ks, size_t pos, X509* cert);
-- 
2.43.0


From b7f866513519c297287a9444b468d5172a865c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:10 +0000
Subject: [PATCH 26/36] fix: the Java key store reader survives allocations
 that fail

---
 keylib/jks.c | 91 ++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 81 insertions(+), 10 deletions(-)

diff --git a/keylib/jks.c b/keylib/jks.c
index 4b831e3..0fad739 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -63,6 +63,7 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     char* d = buf;
     const char* s = source;
     iconv_t cd = iconv_open("utf-16be", "utf-8");
+    char* tmp = NULL;
     size_t r = 0;
     if (cd == (iconv_t)-1)
     {
@@ -70,13 +71,25 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         BIO_free(res);
         return 0;
     }
+    if (res == NULL || buf == NULL)
+    {
+        iconv_close(cd);
+        OPENSSL_free(buf);
+        BIO_free(res);
+        return 0;
+    }
     while (ss > 0)
     {
         d = buf;
         ds = bufSize;
         r = iconv(cd, (char**)&s, &ss, &d, &ds);
-        if (d != buf)
-            BIO_write(res, buf, d - buf);
+        if (d != buf && BIO_write(res, buf, d - buf) != d - buf)
+        {
+            iconv_close(cd);
+            OPENSSL_free(buf);
+            BIO_free(res);
+            return 0;
+        }
         if (r != (size_t)-1)
             break;
         if (errno != E2BIG)
@@ -87,15 +100,28 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
             return 0;
         }
         bufSize *= 2;
-        buf = OPENSSL_realloc(buf, bufSize);
+        tmp = OPENSSL_realloc(buf, bufSize);
+        if (tmp == NULL)
+        {
+            iconv_close(cd);
+            OPENSSL_free(buf);
+            BIO_free(res);
+            return 0;
+        }
+        buf = tmp;
     }
     for (;;)
     {
         d = buf;
         ds = bufSize;
         r = iconv(cd, NULL, NULL, &d, &ds);
-        if (d != buf)
-            BIO_write(res, buf, d - buf);
+        if (d != buf && BIO_write(res, buf, d - buf) != d - buf)
+        {
+            iconv_close(cd);
+            OPENSSL_free(buf);
+            BIO_free(res);
+            return 0;
+        }
         if (r != (size_t)-1)
             break;
         if (errno != E2BIG)
@@ -106,7 +132,15 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
             return 0;
         }
         bufSize *= 2;
-        buf = OPENSSL_realloc(buf, bufSize);
+        tmp = OPENSSL_realloc(buf, bufSize);
+        if (tmp == NULL)
+        {
+            iconv_close(cd);
+            OPENSSL_free(buf);
+            BIO_free(res);
+            return 0;
+        }
+        buf = tmp;
     }
     OPENSSL_free(buf);
     iconv_close(cd);
@@ -117,6 +151,11 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         return 0;
     }
     *dest = OPENSSL_malloc(*dsize);
+    if (*dest == NULL)
+    {
+        BIO_free(res);
+        return 0;
+    }
     memcpy(*dest, d, *dsize);
     BIO_free(res);
     return 1;
@@ -126,7 +165,8 @@ static int twoHash(const void* d1, size_t ds1, const void* d2, size_t ds2, void*
 {
     unsigned int ds = 0;
     EVP_MD_CTX* ctx = EVP_MD_CTX_new();
-    int ok = EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
+    int ok = ctx != NULL &&
+             EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
              EVP_DigestUpdate(ctx, d1, ds1) != 0 &&
              EVP_DigestUpdate(ctx, d2, ds2) != 0 &&
              EVP_DigestFinal_ex(ctx, digest, &ds) != 0;
@@ -138,7 +178,8 @@ static int whiteHash(const void* d1, size_t ds1, const void* d2, size_t ds2, voi
 {
     unsigned int ds = 0;
     EVP_MD_CTX* ctx = EVP_MD_CTX_new();
-    int ok = EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
+    int ok = ctx != NULL &&
+             EVP_DigestInit_ex(ctx, EVP_sha1(), NULL) != 0 &&
              EVP_DigestUpdate(ctx, d1, ds1) != 0 &&
              EVP_DigestUpdate(ctx, "Mighty Aphrodite", 16) != 0 &&
              EVP_DigestUpdate(ctx, d2, ds2) != 0 &&
@@ -170,8 +211,18 @@ static const void* parseCert(const void* data, const void* end, KeyStore* ks, si
 
     KeyStore* tks = KeyStoreNew(0, 1);
 
+    if (tks == NULL)
+    {
+        X509_free(x509);
+        return NULL;
+    }
+
     KeyStoreSetCert(tks, 0, x509);
-    KeyStoreAppend(ks, tks);
+    if (KeyStoreAppend(ks, tks) == 0)
+    {
+        KeyStoreFree(tks);
+        return NULL;
+    }
 
     KeyStoreFree(tks);
 
@@ -202,6 +253,8 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     copyAt(data, 0, digest, saltLength);
 
     decrypted = OPENSSL_malloc(encryptedLength);
+    if (decrypted == NULL)
+        return 0;
     for (i = 0; i < rounds; ++i)
     {
         if (!twoHash(pwd16, pwd16Length, digest, digestLength, digest))
@@ -237,7 +290,12 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 
     if (r != 0)
     {
-        KeyStoreAppend(ks, tks);
+        if (KeyStoreAppend(ks, tks) == 0)
+        {
+            KeyStoreFree(tks);
+            OPENSSL_free(decrypted);
+            return 0;
+        }
         if (keyPos != NULL)
             *keyPos += KeyStoreKeyNum(tks);
         if (certPos != NULL)
@@ -287,6 +345,14 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     X509_ALGOR_get0(&aobj, NULL, NULL, algo);
     keyProtector = OBJ_txt2obj(keyProtectorOID, 1);
     pbes1 = OBJ_txt2obj(pbes1OID, 1);
+    if (keyProtector == NULL || pbes1 == NULL)
+    {
+        ASN1_OBJECT_free(pbes1);
+        ASN1_OBJECT_free(keyProtector);
+        X509_SIG_free(epkInfo);
+        OPENSSL_free(pwd16);
+        return 0;
+    }
 
     if (OBJ_cmp(aobj, keyProtector) == 0)
     {
@@ -416,6 +482,11 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
         return 0;
 
     *ks = KeyStoreNew(0, 0); // Start from zero
+    if (*ks == NULL)
+    {
+        OPENSSL_free(pwd16);
+        return 0;
+    }
 
     for (i = 0; i < entries; ++i)
     {
-- 
2.43.0


From a6157b37125dcfd0b9bf8acca4891be461451366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:10 +0000
Subject: [PATCH 27/36] fix: the Key-6 and PKCS#12 readers survive allocations
 that fail

---
 keylib/key6.c   | 8 +++++++-
 keylib/pkcs12.c | 6 ++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/keylib/key6.c b/keylib/key6.c
index 8a5f9f1..e764c8f 100644
--- a/keylib/key6.c
+++ b/keylib/key6.c
@@ -50,9 +50,10 @@ static int decryptKey6(const void* data, size_t size, const void* pad, size_t pa
     unsigned char* res = OPENSSL_malloc(resSize);
     int r = 0;
 
-    if (resSize == 0)
+    if (resSize == 0 || source == NULL || res == NULL)
     {
         OPENSSL_clear_free(source, sourceSize);
+        OPENSSL_clear_free(res, resSize);
         return 0;
     }
 
@@ -88,6 +89,11 @@ int parseKey6(const void* data, size_t size, const char* password, size_t passSi
     }
     // Type check
     correctType = OBJ_txt2obj(iitStoreOID, 1);
+    if (correctType == NULL)
+    {
+        IITStore_free(store);
+        return 0;
+    }
     if (OBJ_cmp(store->header->type, correctType) != 0)
     {
         ASN1_OBJECT_free(correctType);
diff --git a/keylib/pkcs12.c b/keylib/pkcs12.c
index e6414e1..994522c 100644
--- a/keylib/pkcs12.c
+++ b/keylib/pkcs12.c
@@ -199,6 +199,12 @@ int parsePKCS12(const void* data, size_t dataSize, const char* password, size_t
     }
 
     *ks = KeyStoreNew(numKeys, numCerts);
+    if (*ks == NULL)
+    {
+        sk_PKCS7_pop_free(safes, PKCS7_free);
+        PKCS12_free(pkcs12);
+        return 0;
+    }
 
     if (fromSafes(safes, password, passSize, *ks, &keyPos, &certPos) == 0)
     {
-- 
2.43.0


From cc003557628a25d0fe4d4349841ec5169dcdb7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:10 +0000
Subject: [PATCH 28/36] fix: a key of a container that cannot be allocated is
 an error

---
 keylib/utils.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/keylib/utils.c b/keylib/utils.c
index 645b1f7..7e87308 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -50,6 +50,8 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
     length = ASN1_STRING_length(str);
     data = ASN1_STRING_get0_data(str);
     buf = OPENSSL_malloc(length);
+    if (buf == NULL)
+        return NULL;
     for (i = 0; i < length; ++i)
     {
         // Swap bits
@@ -101,6 +103,9 @@ static EVP_PKEY* makePKey(X509_ATTRIBUTE* curveAttr, X509_ATTRIBUTE* keyAttr)
     DSTU_KEY* key = NULL;
     EVP_PKEY* res = NULL;
 
+    if (ctx == NULL)
+        return NULL;
+
     BN_CTX_start(ctx);
 
     pkNum = getPrivateKeyNum(ctx, keyAttr);
@@ -163,6 +168,13 @@ static EVP_PKEY* pkeyFromAttributes(const PKCS8_PRIV_KEY_INFO* pkcs8)
     int nattr = sk_X509_ATTRIBUTE_num(attributes);
     int i = 0;
 
+    if (dstu4145Curve == NULL || dstu4145Key == NULL)
+    {
+        ASN1_OBJECT_free(dstu4145Key);
+        ASN1_OBJECT_free(dstu4145Curve);
+        return NULL;
+    }
+
     for (i = 0; i < nattr; ++i)
     {
         attr = sk_X509_ATTRIBUTE_value(attributes, i);
@@ -209,11 +221,22 @@ int keysFromPKCS8(const void* data, size_t size, KeyStore** ks)
     if (pkey2 == NULL)
     {
         *ks = KeyStoreNew(1, 0);
+        if (*ks == NULL)
+        {
+            EVP_PKEY_free(pkey1);
+            return 0;
+        }
         KeyStoreSetKey(*ks, 0, pkey1);
         return 1;
     }
 
     *ks = KeyStoreNew(2, 0);
+    if (*ks == NULL)
+    {
+        EVP_PKEY_free(pkey1);
+        EVP_PKEY_free(pkey2);
+        return 0;
+    }
     KeyStoreSetKey(*ks, 0, pkey1);
     KeyStoreSetKey(*ks, 1, pkey2);
 
-- 
2.43.0


From 96387e546558c3bfa897b12b068b0ebb2234ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:10 +0000
Subject: [PATCH 29/36] fix: parameters and points that cannot be allocated are
 an error

---
 dstulib/compress.c | 4 +++-
 dstulib/key.c      | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dstulib/compress.c b/dstulib/compress.c
index 440648e..711fc34 100644
--- a/dstulib/compress.c
+++ b/dstulib/compress.c
@@ -20,7 +20,7 @@ static int bn_trace(const BIGNUM *bn, const BIGNUM *p, BN_CTX *ctx)
 
     r = BN_CTX_get(ctx);
 
-    if (!BN_copy(r, bn))
+    if (!r || !BN_copy(r, bn))
         goto err;
     for (i = 1; i <= (BN_num_bits(p) - 2); i++)
     {
@@ -195,6 +195,8 @@ int dstu_point_expand(const unsigned char *compressed, int compressed_length,
         goto err;
 
     trace = bn_trace(y, p, ctx);
+    if (-1 == trace)
+        goto err;
 
     if ((k && !trace) || (!k && trace))
     {
diff --git a/dstulib/key.c b/dstulib/key.c
index 0496479..5a0fd48 100644
--- a/dstulib/key.c
+++ b/dstulib/key.c
@@ -78,6 +78,8 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
         return NULL;
 
     params = DSTU_AlgorithmParameters_new();
+    if (!params)
+        return NULL;
 
     if (key->sbox)
     {
@@ -107,6 +109,9 @@ DSTU_AlgorithmParameters *asn1_from_key(const DSTU_KEY *key,
             goto err;
 
         ctx = BN_CTX_new();
+        if (!ctx)
+            goto err;
+
         BN_CTX_start(ctx);
 
         p = BN_CTX_get(ctx);
-- 
2.43.0


From bcba73faa8894bdd2073b1c74f91c8b9b85961ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:10 +0000
Subject: [PATCH 30/36] fix: key methods check what they allocate

---
 engine/ameth.c | 10 +++++++++-
 engine/pmeth.c |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index 25ed00a..aeeea17 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -104,6 +104,11 @@ static int dstu_asn1_param_copy(EVP_PKEY *to, const EVP_PKEY *from)
     if (!to_key)
     {
         to_key = DSTU_KEY_new();
+        if (!to_key)
+        {
+            DSTUerr(DSTU_F_DSTU_ASN1_PARAM_COPY, ERR_R_MALLOC_FAILURE);
+            return 0;
+        }
         if (!EVP_PKEY_assign(to, EVP_PKEY_id(from), to_key))
         {
             DSTU_KEY_free(to_key);
@@ -296,7 +301,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
     }
 
     encoded_params_bytes = dstu_asn1_param_encode(pk, &encoded_params);
-    if (!encoded_params_bytes)
+    if (encoded_params_bytes <= 0)
         goto err;
 
     key = EVP_PKEY_get0(pk);
@@ -754,6 +759,9 @@ EVP_PKEY_ASN1_METHOD *dstu_asn1_meth_new(int nid)
     else
         return NULL;
 
+    if (!res)
+        return NULL;
+
     EVP_PKEY_asn1_set_param(res, dstu_asn1_param_decode,
                             dstu_asn1_param_encode, /*dstu_asn1_param_missing*/NULL,
                             dstu_asn1_param_copy, dstu_asn1_param_cmp, dstu_asn1_param_print);
diff --git a/engine/pmeth.c b/engine/pmeth.c
index 8703939..8598c29 100644
--- a/engine/pmeth.c
+++ b/engine/pmeth.c
@@ -280,6 +280,8 @@ static int dstu_pkey_sign(EVP_PKEY_CTX *ctx, unsigned char *sig, size_t *siglen,
 
     field_size = BN_num_bytes(n);
     encoded_sig_size = EVP_PKEY_size(pkey);
+    if (!encoded_sig_size)
+        goto err;
 
     if (sig && encoded_sig_size > *siglen)
     {
-- 
2.43.0


From 312f8bf2dbaa96c2840c045bc7ff4c78a6b55333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:10 +0000
Subject: [PATCH 31/36] fix: without its lock the random generator fails

---
 engine/rbg.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/engine/rbg.c b/engine/rbg.c
index 3b487b4..96239a6 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -112,7 +112,8 @@ static int dstu_rbg_status_nolock(void)
 
 static int dstu_rbg_status(void)
 {
-    dstu_lock();
+    if (!dstu_lock())
+        return 0;
 
     int status = dstu_rbg_status_nolock();
 
@@ -127,7 +128,8 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
     byte j;
     int rv = 1;
 
-    dstu_lock();
+    if (!dstu_lock())
+        return 0;
 
     if (!initialized)
     {
@@ -151,7 +153,8 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
 
 static void dstu_rbg_cleanup(void)
 {
-    dstu_lock();
+    if (!dstu_lock())
+        return;
 
     OPENSSL_cleanse(I, sizeof(I));
     OPENSSL_cleanse(s, sizeof(s));
-- 
2.43.0


From c858198ba1e9d2941b6be699208ee1e5efe673c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:10 +0000
Subject: [PATCH 32/36] fix: a binding that fails undoes what it made and
 registered

---
 engine/dstu.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/engine/dstu.c b/engine/dstu.c
index 5229ee3..3b234f8 100644
--- a/engine/dstu.c
+++ b/engine/dstu.c
@@ -225,6 +225,24 @@ static int dstu_methods_make()
     return 1;
 }
 
+/* Called when binding fails: nothing else releases what was made and registered before. */
+static void dstu_unbind(ENGINE *e)
+{
+    unsigned long long i = 0;
+    ENGINE_unregister_digests(e);
+    ENGINE_unregister_ciphers(e);
+    ENGINE_unregister_pkey_meths(e);
+    ENGINE_unregister_pkey_asn1_meths(e);
+    for (i = 0; i < sizeof(dstu_nids) / sizeof(int); ++i)
+    {
+        if (dstu_pkey_methods[i] != NULL)
+            dstu_pkey_meth_free(dstu_pkey_methods[i]);
+        if (dstu_asn1_methods[i] != NULL)
+            dstu_asn1_meth_free(dstu_asn1_methods[i]);
+    }
+    dstu_engine_destroy(e);
+}
+
 static int dstu_bind(ENGINE *e, const char *id)
 {
     if (id && strcmp(id, engine_dstu_id))
@@ -246,11 +264,12 @@ static int dstu_bind(ENGINE *e, const char *id)
         !ENGINE_register_ciphers(e) ||
         !ENGINE_register_pkey_meths(e) ||
         !ENGINE_register_pkey_asn1_meths(e) ||
-        !EVP_add_digest(dstu_md_get()) ||
-        !EVP_add_cipher(dstu_cipher_get()) ||
+        !dstu_md_get() || !EVP_add_digest(dstu_md_get()) ||
+        !dstu_cipher_get() || !EVP_add_cipher(dstu_cipher_get()) ||
         !EVP_PBE_alg_add_type(EVP_PBE_TYPE_PRF, NID_hmacWithDstu34311, -1, NID_dstu34311, NULL)) /* Adding our algorithms to support PBKDF2 */
     {
         DSTUerr(DSTU_F_BIND_DSTU, ERR_R_EVP_LIB);
+        dstu_unbind(e);
         return 0;
     }
 
-- 
2.43.0


From 4334c636a25ec99fbfb4402a93f0167bc8f0a8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:41 +0000
Subject: [PATCH 33/36] fix: a second key without a place in the context is an
 error, not a leak

---
 keylib/utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/keylib/utils.c b/keylib/utils.c
index 7e87308..74ee979 100644
--- a/keylib/utils.c
+++ b/keylib/utils.c
@@ -49,6 +49,9 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
         return NULL;
     length = ASN1_STRING_length(str);
     data = ASN1_STRING_get0_data(str);
+    res = BN_CTX_get(ctx);
+    if (res == NULL)
+        return NULL;
     buf = OPENSSL_malloc(length);
     if (buf == NULL)
         return NULL;
@@ -63,7 +66,7 @@ static BIGNUM* getPrivateKeyNum(BN_CTX* ctx, X509_ATTRIBUTE* attr)
         buf[length - i - 1] = b;
     }
 
-    res = BN_bin2bn(buf,length, BN_CTX_get(ctx));
+    res = BN_bin2bn(buf,length, res);
 
     OPENSSL_clear_free(buf, length);
 
-- 
2.43.0


From f009b101e6772425372df4829aa3686fdb3df874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:34 +0000
Subject: [PATCH 34/36] fix: absent cipher parameters are refused instead of
 read through a null pointer

---
 engine/cipher.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/engine/cipher.c b/engine/cipher.c
index 37ff8e2..b313a7f 100644
--- a/engine/cipher.c
+++ b/engine/cipher.c
@@ -223,7 +223,8 @@ static int dstu_cipher_set_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *asn1_
 
 static int dstu_cipher_get_asn1_parameters(EVP_CIPHER_CTX *ctx, ASN1_TYPE *asn1_type)
 {
-    if (V_ASN1_SEQUENCE != asn1_type->type)
+    /* The parameters may be absent altogether */
+    if (!asn1_type || V_ASN1_SEQUENCE != asn1_type->type)
         return -1;
 
     if (DSTU_CIPHER_ASN1_PARAM_SIZE != asn1_type->value.sequence->length)
-- 
2.43.0


From 6b4819f9ae3c4e1cc11730429558c111b9ca2382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:38 +0000
Subject: [PATCH 35/36] fix: a forked process does not repeat its parent's
 random bits

---
 engine/rbg.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/engine/rbg.c b/engine/rbg.c
index 96239a6..7219169 100644
--- a/engine/rbg.c
+++ b/engine/rbg.c
@@ -12,11 +12,17 @@
 
 #include <time.h>
 #include <string.h>
+#ifndef _WIN32
+#include <unistd.h> // getpid
+#endif
 
 static u4 I[2];
 static u4 s[2];
 static gost_ctx cryptor;
 static int initialized = 0;
+#ifndef _WIN32
+static pid_t owner = 0; /* the process the generator was seeded in */
+#endif
 static CRYPTO_RWLOCK *dstu_rand_lock = NULL;
 static CRYPTO_ONCE rand_lock_init = CRYPTO_ONCE_STATIC_INIT;
 
@@ -71,11 +77,23 @@ static int dstu_rbg_init(void)
     memcpy(s, seed + 32, 8);
     gostcrypt(&cryptor, curr, (byte*) I);
     initialized = 1;
+#ifndef _WIN32
+    owner = getpid();
+#endif
 
     OPENSSL_cleanse(seed, sizeof(seed));
     return 1;
 }
 
+/* A forked process has a copy of its parent's state: going on with it would repeat the parent's bits */
+static void dstu_rbg_check_fork(void)
+{
+#ifndef _WIN32
+    if (initialized && owner != getpid())
+        initialized = 0;
+#endif
+}
+
 /* DSTU RBG is bit oriented. It gives one bit at a time */
 static byte dstu_rbg_get_bit(void)
 {
@@ -96,6 +114,8 @@ static int dstu_rbg_status_nolock(void)
 {
     int status = RAND_OpenSSL()->status();
 
+    dstu_rbg_check_fork();
+
     if (status && !initialized)
     {
         if (dstu_rbg_init())
@@ -131,6 +151,8 @@ static int dstu_rbg_bytes(unsigned char *buf, int num)
     if (!dstu_lock())
         return 0;
 
+    dstu_rbg_check_fork();
+
     if (!initialized)
     {
         if (!dstu_rbg_status_nolock())
-- 
2.43.0


From f40e7f941d7f34bc0eee318e49a31263cb28f2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:11 +0000
Subject: [PATCH 36/36] fix: private keys and passwords are wiped before their
 memory is released

---
 engine/ameth.c |  6 +++---
 keylib/jks.c   | 52 +++++++++++++++++++++++++-------------------------
 2 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/engine/ameth.c b/engine/ameth.c
index aeeea17..3943e5e 100644
--- a/engine/ameth.c
+++ b/engine/ameth.c
@@ -268,10 +268,10 @@ static int dstu_asn1_priv_decode(EVP_PKEY *pk, const PKCS8_PRIV_KEY_INFO *p8)
     err:
 
     if (prk)
-        BN_free(prk);
+        BN_clear_free(prk);
 
     if (bn_bytes)
-        OPENSSL_free(bn_bytes);
+        OPENSSL_clear_free(bn_bytes, prk_encoded_bytes);
 
     return res;
 }
@@ -355,7 +355,7 @@ static int dstu_asn1_priv_encode(PKCS8_PRIV_KEY_INFO *p8, const EVP_PKEY *pk)
         OPENSSL_free(encoded_params);
 
     if (prk_encoded)
-        OPENSSL_free(prk_encoded);
+        OPENSSL_clear_free(prk_encoded, prk_encoded_bytes);
 
     if (params)
         ASN1_STRING_free(params);
diff --git a/keylib/jks.c b/keylib/jks.c
index 0fad739..406c5f7 100644
--- a/keylib/jks.c
+++ b/keylib/jks.c
@@ -67,14 +67,14 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
     size_t r = 0;
     if (cd == (iconv_t)-1)
     {
-        OPENSSL_free(buf);
+        OPENSSL_clear_free(buf, bufSize);
         BIO_free(res);
         return 0;
     }
     if (res == NULL || buf == NULL)
     {
         iconv_close(cd);
-        OPENSSL_free(buf);
+        OPENSSL_clear_free(buf, bufSize);
         BIO_free(res);
         return 0;
     }
@@ -86,7 +86,7 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         if (d != buf && BIO_write(res, buf, d - buf) != d - buf)
         {
             iconv_close(cd);
-            OPENSSL_free(buf);
+            OPENSSL_clear_free(buf, bufSize);
             BIO_free(res);
             return 0;
         }
@@ -95,16 +95,16 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         if (errno != E2BIG)
         {
             iconv_close(cd);
-            OPENSSL_free(buf);
+            OPENSSL_clear_free(buf, bufSize);
             BIO_free(res);
             return 0;
         }
         bufSize *= 2;
-        tmp = OPENSSL_realloc(buf, bufSize);
+        tmp = OPENSSL_clear_realloc(buf, bufSize / 2, bufSize);
         if (tmp == NULL)
         {
             iconv_close(cd);
-            OPENSSL_free(buf);
+            OPENSSL_clear_free(buf, bufSize / 2);
             BIO_free(res);
             return 0;
         }
@@ -118,7 +118,7 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         if (d != buf && BIO_write(res, buf, d - buf) != d - buf)
         {
             iconv_close(cd);
-            OPENSSL_free(buf);
+            OPENSSL_clear_free(buf, bufSize);
             BIO_free(res);
             return 0;
         }
@@ -127,22 +127,22 @@ static int toUTF16BE(const char* source, size_t size, void** dest, size_t* dsize
         if (errno != E2BIG)
         {
             iconv_close(cd);
-            OPENSSL_free(buf);
+            OPENSSL_clear_free(buf, bufSize);
             BIO_free(res);
             return 0;
         }
         bufSize *= 2;
-        tmp = OPENSSL_realloc(buf, bufSize);
+        tmp = OPENSSL_clear_realloc(buf, bufSize / 2, bufSize);
         if (tmp == NULL)
         {
             iconv_close(cd);
-            OPENSSL_free(buf);
+            OPENSSL_clear_free(buf, bufSize / 2);
             BIO_free(res);
             return 0;
         }
         buf = tmp;
     }
-    OPENSSL_free(buf);
+    OPENSSL_clear_free(buf, bufSize);
     iconv_close(cd);
     *dsize = BIO_get_mem_data(res, &d);
     if (d == NULL || *dsize == 0)
@@ -259,7 +259,7 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
     {
         if (!twoHash(pwd16, pwd16Length, digest, digestLength, digest))
         {
-            OPENSSL_free(decrypted);
+            OPENSSL_clear_free(decrypted, encryptedLength);
             return 0;
         }
         for (j = 0; j < digestLength; ++j)
@@ -273,14 +273,14 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
 
     if (!twoHash(pwd16, pwd16Length, decrypted, encryptedLength, digest))
     {
-        OPENSSL_free(decrypted);
+        OPENSSL_clear_free(decrypted, encryptedLength);
         return 0;
     }
 
     for (j = 0; j < digestLength; ++j)
         if (digest[j] != check[j])
         {
-            OPENSSL_free(decrypted);
+            OPENSSL_clear_free(decrypted, encryptedLength);
             return 0;
         }
 
@@ -293,7 +293,7 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
         if (KeyStoreAppend(ks, tks) == 0)
         {
             KeyStoreFree(tks);
-            OPENSSL_free(decrypted);
+            OPENSSL_clear_free(decrypted, encryptedLength);
             return 0;
         }
         if (keyPos != NULL)
@@ -303,7 +303,7 @@ static int fromKeyProtector(const void* data, size_t size, const char* pwd16, si
         KeyStoreFree(tks);
     }
 
-    OPENSSL_free(decrypted);
+    OPENSSL_clear_free(decrypted, encryptedLength);
     return r;
 }
 
@@ -337,7 +337,7 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
     epkInfo = d2i_X509_SIG(NULL, &dataPtr, dataSize);
     if (epkInfo == NULL)
     {
-        OPENSSL_free(pwd16);
+        OPENSSL_clear_free(pwd16, pwd16Length);
         return 0;
     }
 
@@ -350,7 +350,7 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
         ASN1_OBJECT_free(pbes1);
         ASN1_OBJECT_free(keyProtector);
         X509_SIG_free(epkInfo);
-        OPENSSL_free(pwd16);
+        OPENSSL_clear_free(pwd16, pwd16Length);
         return 0;
     }
 
@@ -361,7 +361,7 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
             ASN1_OBJECT_free(pbes1);
             ASN1_OBJECT_free(keyProtector);
             X509_SIG_free(epkInfo);
-            OPENSSL_free(pwd16);
+            OPENSSL_clear_free(pwd16, pwd16Length);
             return 0;
         }
     }
@@ -372,7 +372,7 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
             ASN1_OBJECT_free(pbes1);
             ASN1_OBJECT_free(keyProtector);
             X509_SIG_free(epkInfo);
-            OPENSSL_free(pwd16);
+            OPENSSL_clear_free(pwd16, pwd16Length);
             return 0;
         }
     }
@@ -381,13 +381,13 @@ static int decryptKey(const void* data, size_t dataSize, const char* password, s
         ASN1_OBJECT_free(pbes1);
         ASN1_OBJECT_free(keyProtector);
         X509_SIG_free(epkInfo);
-        OPENSSL_free(pwd16);
+        OPENSSL_clear_free(pwd16, pwd16Length);
         return 0;
     }
 
     ASN1_OBJECT_free(pbes1);
     ASN1_OBJECT_free(keyProtector);
-    OPENSSL_free(pwd16);
+    OPENSSL_clear_free(pwd16, pwd16Length);
     X509_SIG_free(epkInfo);
 
     return 1;
@@ -484,7 +484,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     *ks = KeyStoreNew(0, 0); // Start from zero
     if (*ks == NULL)
     {
-        OPENSSL_free(pwd16);
+        OPENSSL_clear_free(pwd16, pwd16Length);
         return 0;
     }
 
@@ -499,7 +499,7 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     {
         KeyStoreFree(*ks);
         *ks = NULL;
-        OPENSSL_free(pwd16);
+        OPENSSL_clear_free(pwd16, pwd16Length);
         return 0;
     }
 
@@ -507,10 +507,10 @@ int parseJKS(const void* data, size_t size, const char* storagePass, size_t stor
     {
         KeyStoreFree(*ks);
         *ks = NULL;
-        OPENSSL_free(pwd16);
+        OPENSSL_clear_free(pwd16, pwd16Length);
         return 0;
     }
-    OPENSSL_free(pwd16);
+    OPENSSL_clear_free(pwd16, pwd16Length);
 
     for (j = 0; j < digestLength; ++j)
         if (digest[j] != entryPtr[j])
-- 
2.43.0

