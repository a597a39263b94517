seed("S01-length-32-bits", "P01", [("dstulib/gost/gosthash.c", """    ghosthash_len fin_len = ctx->len;
""", """    unsigned int fin_len = ctx->len;
""")],
 "a message of 2^29 bytes or more",
 "the message length entering the digest is cut to 32 bits", r'''
/* A message of 2^29+32 bytes: with the length cut to 32 bits it looks like one of 32 bytes, so the digest does not depend on the
   top bits of the length. Reference value computed with an independent implementation. */
int main(void) {
    load_engine(); static unsigned char z[1 << 20]; unsigned char a[32]; unsigned n; int i; static const unsigned char want[32] = {0xb2, 0x90, 0xcf, 0x99, 0x5a, 0xcf, 0xf2, 0x97, 0xb8, 0x3d, 0x52, 0xf0, 0xe3, 0xd4, 0x83, 0xa7, 0x3b, 0xdb, 0x02, 0x06, 0x23, 0xb6, 0x1b, 0x07, 0x1c, 0xb7, 0xa3, 0x64, 0x22, 0xad, 0x87, 0x50, };
    EVP_MD_CTX *c = EVP_MD_CTX_new(); EVP_DigestInit_ex(c, MD, E);
    for (i = 0; i < 512; i++) EVP_DigestUpdate(c, z, sizeof z);
    EVP_DigestUpdate(c, z, 32); EVP_DigestFinal_ex(c, a, &n);
    if (getenv("SHOW")) for (i = 0; i < 32; i++) printf("0x%02x, ", a[i]);
    if (memcmp(a, want, 32)) BAD("digest of 2^29+32 zero bytes is wrong");
    return 0; }
''')
seed("S02-copied-digest-state", "P02", [("engine/md.c", """        memcpy(to_ctx, from_ctx, sizeof(struct dstu_digest_ctx));
        to_ctx->dctx.cipher_ctx = &(to_ctx->cctx);
""", """        memcpy(to_ctx, from_ctx, sizeof(struct dstu_digest_ctx));
""")],
 "a digest context copied to another one, then the source given another table, reset or freed before the copy is finished",
 "a copied digest context keeps working through its source's cipher state", r'''
int main(void) {
    load_engine(); unsigned char a[32], b[32], t[64]; unsigned n; memset(t, 0x35, 64);
    EVP_MD_CTX *x = EVP_MD_CTX_new(), *y = EVP_MD_CTX_new();
    EVP_DigestInit_ex(x, MD, E); EVP_DigestUpdate(x, "hello, world", 12); EVP_MD_CTX_copy_ex(y, x);
    EVP_MD_CTX_ctrl(x, SET_SBOX, 64, t);
    EVP_DigestFinal_ex(y, a, &n); hash("hello, world", 12, b);
    if (memcmp(a, b, 32)) BAD("the copy's digest changed with its source");
    return 0; }
''')
seed("S03-inplace-decrypt-tail", "P03", [("engine/cipher.c", """            else
            {
                iv[i] = *in;
                *out = *in ^ buf[i];
            }""", """            else
            {
                *out = *in ^ buf[i];
                iv[i] = *in;
            }""")],
 "in-place decryption where an update ends inside a block and another update follows",
 "decrypting in place feeds plaintext back into the cipher after an update that ends inside a block", r'''
int main(void) {
    load_engine(); unsigned char k[32], iv[8], p[40], c[40]; int n, i; for (i = 0; i < 40; i++) p[i] = i * 7; memset(k, 9, 32); memset(iv, 3, 8);
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new();
    EVP_CipherInit_ex(x, CI, E, k, iv, 1); EVP_CipherUpdate(x, c, &n, p, 40);
    EVP_CipherInit_ex(x, CI, E, k, iv, 0); EVP_CipherUpdate(x, c, &n, c, 13); EVP_CipherUpdate(x, c + 13, &n, c + 13, 27);
    if (memcmp(c, p, 40)) BAD("in-place decryption does not restore the plaintext");
    return 0; }
''')
seed("S04-export-running-iv", "P04", [("engine/cipher.c", """    memcpy(&(params[4]), EVP_CIPHER_CTX_original_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
""", """    memcpy(&(params[4]), EVP_CIPHER_CTX_iv(ctx), DSTU_CIPHER_BLOCK_SIZE);
""")],
 "parameters exported after data has been processed",
 "exported cipher parameters carry the feedback register instead of the IV", r'''
int main(void) {
    load_engine(); unsigned char k[32], iv[8], p[40], c[40], d[40]; int n, i; for (i = 0; i < 40; i++) p[i] = i * 7; memset(k, 9, 32); memset(iv, 3, 8);
    EVP_CIPHER_CTX *x = EVP_CIPHER_CTX_new(), *y = EVP_CIPHER_CTX_new(); ASN1_TYPE *t = ASN1_TYPE_new();
    EVP_CipherInit_ex(x, CI, E, k, iv, 1); EVP_CipherUpdate(x, c, &n, p, 40);
    if (EVP_CIPHER_param_to_asn1(x, t) <= 0) BAD("export");
    EVP_CipherInit_ex(y, CI, E, k, NULL, 0); if (EVP_CIPHER_asn1_to_param(y, t) <= 0) BAD("import");
    EVP_CipherUpdate(y, d, &n, c, 40);
    if (memcmp(d, p, 40)) BAD("exported parameters do not decrypt");
    return 0; }
''')
seed("S05-small-buffer", "P05", [("engine/pmeth.c", """    if (sig && encoded_sig_size > *siglen)
""", """    if (sig && (size_t) (2 * field_size) > *siglen)
""")],
 "a signature buffer that holds the two numbers but not the DER header",
 "signing writes past a buffer that is one to three bytes too small and reports success", r'''
int main(void) {
    load_engine(); EVP_PKEY *k = keygen("dstu4145le", "uacurve6", NULL); unsigned char t[32] = {1}, b[200]; size_t n = EVP_PKEY_get_size(k) - 1;
    memset(b, 0x77, sizeof b);
    if (sign(k, t, 32, b, &n)) BAD("signing into a short buffer succeeded");
    if (b[EVP_PKEY_get_size(k) - 1] != 0x77) BAD("byte past the buffer was written");
    return 0; }
''')
seed("S06-range-check-and", "P06", [("engine/sign.c", "    if ((BN_cmp(s, n) >= 0) || (BN_cmp(r, n) >= 0))\n", "    if ((BN_cmp(s, n) >= 0) && (BN_cmp(r, n) >= 0))\n")],
 "a genuine signature with the order added to one of its numbers",
 "verification accepts out-of-range components: signatures become malleable", r'''
int main(void) {
    load_engine(); EVP_PKEY *k = keygen("dstu4145be", "uacurve0", NULL); unsigned char t[32] = {1}, b[200], v[300]; size_t n = sizeof b;
    if (!sign(k, t, 32, b, &n)) BAD("sign"); if (!verify(k, t, 32, b, n)) BAD("own signature");
    BIGNUM *o = NULL, *s; BN_hex2bn(&o, "0400000000000000000002BEC12BE2262D39BCF14D"); s = BN_bin2bn(b + 2, 21, NULL); BN_add(s, s, o);
    memcpy(v, b, n); BN_bn2binpad(s, v + 2, 21);
    if (verify(k, t, 32, v, n)) BAD("s + n accepted");
    return 0; }
''')
seed("S07-table-prefix", "P07", [("dstulib/params.c", "    return !memcmp(default_sbox, sbox, sizeof(default_sbox));\n", "    return !memcmp(default_sbox, sbox, sizeof(default_sbox) / 8);\n")],
 "a key whose table starts with the same row as the default one",
 "such a table is taken for the default one when a key is decoded or encoded, so messages are hashed with the wrong table", r'''
int main(void) {
    load_engine(); unsigned char t[64], *o, s[200]; size_t n = sizeof s; memcpy(t, DEF, 64); t[63] ^= 0x11; t[20] ^= 0x22;
    EVP_PKEY *k = keygen("dstu4145le", "uacurve6", t), *q; EVP_MD_CTX *c = EVP_MD_CTX_new();
    if (EVP_DigestSignInit(c, NULL, MD, E, k) != 1 || EVP_DigestSign(c, s, &n, (void *)"abc", 3) != 1) BAD("sign");
    q = unpub(o, pub(k, &o)); if (!q) BAD("decode");
    EVP_MD_CTX_free(c); c = EVP_MD_CTX_new();
    if (EVP_DigestVerifyInit(c, NULL, MD, E, q) != 1 || EVP_DigestVerify(c, s, n, (void *)"abc", 3) != 1) BAD("the public half with the same table rejects the signature");
    return 0; }
''')
seed("S08-hex-table-leading-zero", "P08", [("engine/pmeth.c", "        if (bn_encode(tmp, sbox, sizeof(sbox)))\n", "        if (BN_bn2bin(tmp, sbox))\n")],
 "a table given as a hexadecimal string that starts with two zero digits",
 "the table of the generated key is shifted by one byte", r'''
int main(void) {
    load_engine(); char h[129]; int i, n, found = 0; for (i = 0; i < 128; i++) h[i] = "0123456789abcdef"[(i * 7 + 3) % 16]; h[0] = h[1] = '0'; h[128] = 0;
    unsigned char t[64], *o; for (i = 0; i < 64; i++) { char x[3] = {h[2 * i], h[2 * i + 1], 0}; t[i] = strtoul(x, NULL, 16); }
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(OBJ_txt2nid("dstu4145le"), E); EVP_PKEY *k = NULL; EVP_PKEY_keygen_init(c);
    if (EVP_PKEY_CTX_ctrl_str(c, "sbox", h) != 1 || EVP_PKEY_keygen(c, &k) != 1) BAD("keygen");
    n = pub(k, &o); for (i = 0; i + 64 <= n; i++) found |= !memcmp(o + i, t, 64);
    if (!found) BAD("the key does not carry the table that was set");
    return 0; }
''')
seed("S09-compare-x-only", "P09", [("engine/ameth.c", """    if (EC_POINT_cmp(EC_KEY_get0_group(first->ec),
                     EC_KEY_get0_public_key(first->ec),
                     EC_KEY_get0_public_key(second->ec), NULL))
        return 0;

    return 1;""", """    BIGNUM *x1 = BN_new(), *x2 = BN_new();
    int ret = x1 && x2 &&
              EC_POINT_get_affine_coordinates_GF2m(EC_KEY_get0_group(first->ec), EC_KEY_get0_public_key(first->ec), x1, NULL, NULL) &&
              EC_POINT_get_affine_coordinates_GF2m(EC_KEY_get0_group(second->ec), EC_KEY_get0_public_key(second->ec), x2, NULL, NULL) &&
              !BN_cmp(x1, x2);

    BN_free(x1);
    BN_free(x2);
    return ret;""")],
 "two keys whose public points are opposite (secrets d and n - d)",
 "keys with opposite public points compare equal", r'''
int main(void) {
    load_engine(); EVP_PKEY *k = keygen("dstu4145be", "uacurve6", NULL), *q; unsigned char *o; int n = pub(k, &o);
    o[n - 1] ^= 1; q = unpub(o, n); if (!q) BAD("decode");
    if (EVP_PKEY_eq(k, q) == 1) BAD("opposite points compare equal");
    return 0; }
''')
seed("S10-secret-size", "P10", [("engine/ameth.c", "    prk_encoded_bytes = BN_num_bytes(d);\n", "    prk_encoded_bytes = (BN_num_bits(d) + 6) / 8;\n    if (!prk_encoded_bytes)\n        prk_encoded_bytes = 1;\n")],
 "a secret whose bit length is one more than a multiple of eight",
 "the most significant byte of the secret is lost in the PKCS#8 encoding (and written past the buffer)", r'''
int main(void) {
    load_engine(); int i; for (i = 0; i < 200; i++) { EVP_PKEY *k = keygen("dstu4145le", "uacurve0", NULL), *q; unsigned char *o; int n = p8(k, &o);
        q = unp8(o, n); if (!q || EVP_PKEY_eq(k, q) != 1) BAD("private key changed by PKCS#8"); OPENSSL_free(o); EVP_PKEY_free(q); EVP_PKEY_free(k); }
    return 0; }
''')
seed("S11-named-by-curve-only", "P11", [("dstulib/params.c", "            if (!EC_GROUP_cmp(group, std_group, NULL))\n", "            if (!BN_cmp(EC_GROUP_get0_order(group), EC_GROUP_get0_order(std_group)))\n")],
 "a custom curve with the order of a named one but another base point",
 "a curve that differs from a named one in its base point is encoded under that name", r'''
int main(void) {
    load_engine(); unsigned char *o; int n; EVP_PKEY *k = NULL, *q; EVP_PKEY *base = keygen("dstu4145le", "uacurve3", NULL);
    /* same curve, base point doubled */
    n = pub(base, &o);
    BIGNUM *p = NULL, *a = NULL, *b = NULL, *x = NULL, *y = NULL, *r = NULL; 
    /* uacurve0: x^163+x^7+x^6+x^3+1 */
    BN_hex2bn(&p, "0800000000000000000000000000000000000000C9"); a = BN_new(); BN_one(a); BN_hex2bn(&b, "05FF6108462A2DC8210AB403925E638A19C1455D21"); BN_hex2bn(&r, "0400000000000000000002BEC12BE2262D39BCF14D");
    EC_GROUP *g = EC_GROUP_new_curve_GF2m(p, a, b, NULL); if (!g) BAD("group");
    /* any point of the subgroup: take a public key on the named curve */
    EVP_PKEY *k0 = keygen("dstu4145le", "uacurve0", NULL); BIO *m = BIO_new(BIO_s_mem()); char *t, hex[200]; long l; int i, h = 0;
    EVP_PKEY_print_public(m, k0, 0, NULL); BIO_write(m, "", 1); BIO_get_mem_data(m, &t);
    t = strstr(t, "pub:"); if (!t) BAD("print"); t += 4; for (; *t && !strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZ", *t); t++) if (strchr("0123456789abcdef", *t)) hex[h++] = *t; hex[h] = 0;
    EC_POINT *q0 = EC_POINT_hex2point(g, hex, NULL, NULL); if (!q0) BAD("point");
    if (!EC_GROUP_set_generator(g, q0, r, BN_value_one())) BAD("generator");
    EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(OBJ_txt2nid("dstu4145le"), E); EVP_PKEY_keygen_init(c);
    if (EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, SET_CURVE, 0, g) != 1 || EVP_PKEY_keygen(c, &k) != 1) BAD("keygen");
    n = p8(k, &o); q = unp8(o, n);
    if (!q || EVP_PKEY_eq(k, q) != 1) BAD("a key on a curve with its own base point changes through encoding");
    return 0; }
''')
seed("S12-expand-zero-test", "P12", [("dstulib/compress.c", """    if (BN_is_zero(x))
    {
        if (!BN_GF2m_mod_sqrt(y, b, p, ctx))
            goto err;

        if (EC_POINT_set_affine_coordinates_GF2m(group, point, x, y, ctx))
            res = 1;

        goto err;
    }

    k = BN_is_bit_set(x, 0);

    if (!BN_clear_bit(x, 0))
        goto err;
""", """    k = BN_is_bit_set(x, 0);

    if (!BN_clear_bit(x, 0))
        goto err;

    if (BN_is_zero(x))
    {
        if (!BN_GF2m_mod_sqrt(y, b, p, ctx))
            goto err;

        if (EC_POINT_set_affine_coordinates_GF2m(group, point, x, y, ctx))
            res = 1;

        goto err;
    }
""")],
 "the compressed point 00...01 (x-coordinate one) on a curve with a = 1",
 "the compressed form of a point with x = 1 expands to the point with x = 0", r'''
int main(void) {
    load_engine(); EVP_PKEY *k = keygen("dstu4145be", "uacurve0", NULL), *q; unsigned char *o; int n = pub(k, &o); int i;
    memset(o + n - 21, 0, 21); o[n - 1] = 1; q = unpub(o, n); if (!q) return 0;
    unsigned char *o2; int n2 = pub(q, &o2); if (n2 == n && memcmp(o, o2, n)) BAD("compressed point 1 became another point");
    return 0; }
''')
seed("S13-short-table", "P13", [("dstulib/key.c", "        if (64 != ASN1_STRING_length(params->sbox))\n", "        if (64 < ASN1_STRING_length(params->sbox))\n")],
 "key parameters whose table is shorter than 64 bytes",
 "a short table is accepted and read past its end", r'''
int main(void) {
    load_engine(); unsigned char t[64], *o, b[400]; int i, n; memset(t, 0x36, 64);
    EVP_PKEY *k = keygen("dstu4145be", "uacurve0", t); n = pub(k, &o);
    for (i = 0; i + 64 < n; i++) if (!memcmp(o + i, t, 64)) break;
    /* drop the last byte of the table and fix the lengths of the enclosing structures (all one-byte or 81 xx) */
    memcpy(b, o, i + 63); memcpy(b + i + 63, o + i + 64, n - i - 64); b[i - 1] = 63;
    /* outer sequence 30 81 L, algorithm 30 L, oid .., params 30 L, curve oid, octets */
    int j = 0; if (b[1] == 0x81) { b[2]--; j = 3; } else { b[1]--; j = 2; } b[j + 1]--; j += 2; j += 2 + b[j + 1]; b[j + 1]--;
    if (unpub(b, n - 1)) BAD("a key with a table of 63 bytes was accepted");
    return 0; }
''')
seed("S14-ucs2-password", "P14", [("keylib/jks.c", 'iconv_open("utf-16be", "utf-8")', 'iconv_open("ucs-2be", "utf-8")')],
 "a store or key password with a character outside the basic plane",
 "a Java key store whose password has a character above U+FFFF cannot be opened", r'''
int main(int argc, char **argv) {
    load_engine(); KeyStore *k = NULL; X509 *x = some_cert(NULL); unsigned char *o = NULL, u[] = {0, 'a', 0xd8, 0x3d, 0xde, 0x00}, d[20]; int n = i2d_X509(x, &o); SHA_CTX c;
    jks_begin(1); jks_trusted("a", 1, o, n);
    SHA1_Init(&c); SHA1_Update(&c, u, 6); SHA1_Update(&c, "Mighty Aphrodite", 16); SHA1_Update(&c, J, JN); SHA1_Final(d, &c); jput(d, 20);
    if (parseJKS(J, JN, "a\xf0\x9f\x98\x80", 5, "", 0, &k) != 1 || KeyStoreCertNum(k) != 1) BAD("store with an emoji in its password not read");
    return 0; }
''')
seed("S15-digest-until-zero", "P15", [("keylib/jks.c", """    for (j = 0; j < digestLength; ++j)
        if (digest[j] != entryPtr[j])
""", """    for (j = 0; j < digestLength && digest[j] != 0; ++j)
        if (digest[j] != entryPtr[j])
""")],
 "an altered store whose digest begins with a zero byte",
 "the store digest is compared only up to its first zero byte", r'''
int main(int argc, char **argv) {
    load_engine(); KeyStore *k = NULL; X509 *x = some_cert(NULL); unsigned char *o = NULL; int n = i2d_X509(x, &o), i; char a[20];
    for (i = 0; i < 20000; i++) {
        snprintf(a, sizeof a, "%05d", i); jks_begin(1); jks_trusted(a, 5, o, n); jks_end("pw");
        if (J[JN - 20]) continue;
        J[JN - 1] ^= 1;
        if (parseJKS(J, JN, "pw", 2, "", 0, &k) == 1) BAD("a store with a wrong digest was accepted");
        return 0;
    }
    BAD("no digest with a leading zero"); }
''')
seed("S16-pad-at-block", "P16", [("keylib/key6.c", "        memcpy(source + size, pad, padSize);\n", "        memcpy(source + size / 8 * 8, pad, padSize);\n")],
 "a Key-6 container whose payload is divided between data and pad at a place that is not a block boundary",
 "a payload divided inside a block is joined wrongly", r'''
static const unsigned char *tlv(const unsigned char *p, int *len) { int l = p[1]; p += 2; if (l & 0x80) { int c = l & 15; l = 0; while (c--) l = l << 8 | *p++; } *len = l; return p; }
static int put(unsigned char *o, int tag, const unsigned char *p, int n) { memmove(o + 4, p, n); o[0] = tag; o[1] = 0x82; o[2] = n >> 8; o[3] = n; return n + 4; }
int main(int argc, char **argv) {
    load_engine(); unsigned char f[20000], all[20000], o[20000], t[20000]; int n = read_all(argv[1], "Key-6.dat", f, sizeof f), l, hl, pl, i, cut, k; KeyStore *ks = NULL, *ref = NULL;
    const unsigned char *s = tlv(f, &l), *h = tlv(s, &hl), *type = h, *par, *mac, *pad = NULL, *data; int typel, parl, macl, padl = 0, datal, m = 0;
    if (parseKey6(f, n, "tect4", 5, &ref) != 1) BAD("reference");
    const unsigned char *q = tlv(type, &typel); q += typel; par = tlv(q, &parl); const unsigned char *c = par; mac = c; c = tlv(c, &macl) + macl; if (c < par + parl) pad = tlv(c, &padl);
    data = tlv(h + hl, &datal);
    memcpy(all, data, datal); if (pad) memcpy(all + datal, pad, padl); m = datal + padl;
    int typesize = tlv(type, &typel) + typel - type, macsize = tlv(mac, &macl) + macl - mac;
    for (cut = m - 1; cut > 8; cut -= 37) {
        unsigned char p1[20000]; int a = 0, b = 0;
        /* params */
        memcpy(p1, mac, macsize); a = macsize; a += put(p1 + a, 4, all + cut, m - cut); a = put(t, 0x30, p1, a);
        memcpy(p1, type, typesize); memcpy(p1 + typesize, t, a); a = put(t, 0x30, p1, typesize + a);
        b = put(t + a, 4, all, cut); memcpy(p1, t, a + b); a = put(o, 0x30, p1, a + b);
        if (parseKey6(o, a, "tect4", 5, &ks) != 1) BAD("payload divided at %d of %d not read", cut, m);
        if (KeyStoreKeyNum(ks) != KeyStoreKeyNum(ref)) BAD("other keys at %d", cut);
        for (i = 0; i < KeyStoreKeyNum(ref); i++) if (EVP_PKEY_eq(KeyStoreGetKey(ks, i), KeyStoreGetKey(ref, i)) != 1) BAD("key %d differs at %d", i, cut);
    }
    return 0; }
''')
seed("S17-no-mac", "P17", [("keylib/pkcs12.c", "    if (PKCS12_verify_mac(pkcs12, password, passSize) == 0)\n", "    if (PKCS12_mac_present(pkcs12) && PKCS12_verify_mac(pkcs12, password, passSize) == 0)\n")],
 "a PKCS#12 container without a MAC",
 "a container that carries no MAC is accepted, whatever the password", r'''
int main(int argc, char **argv) {
    load_engine(); EVP_PKEY *k; X509 *x = some_cert(&k); KeyStore *ks = NULL; unsigned char *o = NULL;
    PKCS12 *p = PKCS12_create("pw", "n", k, x, NULL, -1, -1, 0, -1, 0); int n = p ? i2d_PKCS12(p, &o) : 0; if (n <= 0) BAD("create");
    if (parsePKCS12(o, n, "anything", 8, &ks) == 1) BAD("a container without a MAC was accepted");
    p = PKCS12_create("pw", "n", k, x, NULL, 0, 0, 0, 0, 0); o = NULL; n = i2d_PKCS12(p, &o);
    if (parsePKCS12(o, n, "pw", 2, &ks) != 1) BAD("good container");
    return 0; }
''')
seed("S18-attribute-type", "P18", [("keylib/utils.c", """            break;
    }
    if (str == NULL)
        return NULL;
    length""", """            break;
    }
    length""")],
 "a protected key whose second-key attribute holds neither an octet nor a bit string",
 "the reader dereferences a null pointer", r'''
int main(int argc, char **argv) {
    load_engine(); KeyStore *ks = NULL; unsigned char *o = NULL; EVP_PKEY *k = keygen("dstu4145le", "uacurve0", NULL); PKCS8_PRIV_KEY_INFO *p = EVP_PKEY2PKCS8(k); int n;
    PKCS8_pkey_add1_attr_by_OBJ(p, OBJ_txt2obj("1.3.6.1.4.1.19398.1.1.2.2", 1), V_ASN1_OCTET_STRING, (const unsigned char *)"abc", 3);
    PKCS8_pkey_add1_attr_by_OBJ(p, OBJ_txt2obj("1.3.6.1.4.1.19398.1.1.2.3", 1), V_ASN1_PRINTABLESTRING, (const unsigned char *)"abc", 3);
    n = i2d_PKCS8_PRIV_KEY_INFO(p, &o); jks_begin(1); jks_key("a", 1, o, n, "pw", 0); jks_end("pw");
    parseJKS(J, JN, "pw", 2, "pw", 2, &ks);
    return 0; }
''')
seed("S19-short-reads", "P19", [("keylib/jks.c", "        total += bytes;\n", "        total += bytes;\n        if (bytes < sizeof(buf))\n            break;\n")],
 "a stream that delivers fewer bytes than asked for before its end",
 "reading a Java key store from a stream stops at the first short read", r'''
#include <sys/wait.h>
#include <unistd.h>
int main(int argc, char **argv) {
    load_engine(); unsigned char f[20000]; int n = read_all(argv[1], "key.jks", f, sizeof f), fd[2], i; KeyStore *ks = NULL;
    if (pipe(fd)) BAD("pipe");
    if (!fork()) { for (i = 0; i < n; i += 500) { write(fd[1], f + i, n - i < 500 ? n - i : 500); usleep(20000); } _exit(0); }
    close(fd[1]); BIO *b = BIO_new_fd(fd[0], 0);
    if (readJKS_bio(b, "123456", 6, "qwerty", 6, &ks) != 1) BAD("store not read from a pipe");
    return 0; }
''')
seed("S20-cert-bound", "P20", [("keylib/keystore.c", "    if (pos < ks->certNum)\n", "    if (pos < ks->keyNum)\n")],
 "a store with more certificates than keys",
 "the certificates past the number of keys cannot be obtained", r'''
int main(int argc, char **argv) {
    load_engine(); KeyStore *k = NULL; X509 *x = some_cert(NULL); unsigned char *o = NULL; int n = i2d_X509(x, &o), i; char a[20];
    jks_begin(6); for (i = 0; i < 6; i++) { a[0] = 'a' + i; jks_trusted(a, 1, o, n); } jks_end("pw");
    if (parseJKS(J, JN, "pw", 2, "", 0, &k) != 1 || KeyStoreCertNum(k) != 6) BAD("store");
    for (i = 0; i < 6; i++) if (!KeyStoreGetCert(k, i)) BAD("certificate %d missing", i);
    return 0; }
''')
seed("S21-initialized-early", "P21", [("engine/rbg.c", """    if (!RAND_OpenSSL()->bytes(seed, DSTU_RGB_SEED_SIZE))
        return 0;

""", """    initialized = 1;
    if (!RAND_OpenSSL()->bytes(seed, DSTU_RGB_SEED_SIZE))
        return 0;

""")],
 "the system generator fails at the first request and recovers before the next",
 "after a failed seeding the generator runs without a seed", r'''
static int fail; static const RAND_METHOD *real; static RAND_METHOD my;
#include <dlfcn.h>
static int my_bytes(unsigned char *b, int n) { return fail ? 0 : real->bytes(b, n); }
static int my_status(void) { return 1; }
RAND_METHOD *RAND_OpenSSL(void) { if (!real) { real = ((RAND_METHOD *(*)(void))dlsym(RTLD_NEXT, "RAND_OpenSSL"))(); my = *real; my.bytes = my_bytes; my.status = my_status; } return &my; }
int main(int argc, char **argv) {
    load_engine(); const RAND_METHOD *r = ENGINE_get_RAND(E); unsigned char a[32], b[32]; int i, x = 0;
    fail = 1; if (r->bytes(a, 32) == 1) BAD("bytes without a seed");
    fail = 0; if (r->bytes(a, 32) != 1) BAD("no recovery");
    r->cleanup();
    fail = 1; r->bytes(b, 32); fail = 0; if (r->bytes(b, 32) != 1) BAD("no recovery");
    if (!memcmp(a, b, 32)) BAD("the generator repeats itself");
    /* after a cleanup and a failed seeding the state is all zero: the same stream twice */
    r->cleanup(); fail = 1; r->bytes(a, 32); fail = 0; r->bytes(a, 32);
    if (!memcmp(a, b, 32)) BAD("the generator repeats itself");
    return 0; }
''', flags="-rdynamic -D_GNU_SOURCE")
seed("S22-unlock-early", "P22", [("engine/rbg.c", """            rv = 0;
    }

    for (i = 0; i < (unsigned)num; i++)
    {
        *(buf + i) = 0;
        for (j = 0; j < 8; j++)
        {
            *(buf + i) |= dstu_rbg_get_bit() << j;
        }
    }

    dstu_unlock();

    return rv;
""", """            rv = 0;
    }

    dstu_unlock();

    for (i = 0; i < (unsigned)num; i++)
    {
        *(buf + i) = 0;
        for (j = 0; j < 8; j++)
        {
            *(buf + i) |= dstu_rbg_get_bit() << j;
        }
    }

    return rv;
""")],
 "two threads drawing random bytes at the same time",
 "the generator's state is updated outside its lock", r'''
#include <dlfcn.h>
#include <pthread.h>
#include <time.h>
/* With a fixed seed and time the stream is known; what the threads drew must be its pieces. */
static const RAND_METHOD *real; static RAND_METHOD my;
static int my_bytes(unsigned char *b, int n) { memset(b, 0x42, n); return 1; }
static int my_status(void) { return 1; }
RAND_METHOD *RAND_OpenSSL(void) { if (!real) { real = ((RAND_METHOD *(*)(void))dlsym(RTLD_NEXT, "RAND_OpenSSL"))(); my = *real; my.bytes = my_bytes; my.status = my_status; } return &my; }
time_t time(time_t *t) { if (t) *t = 1000000; return 1000000; }
#define T 4
#define N 3000
static const RAND_METHOD *R; static unsigned char got[T * N][16], ref[T * N][16]; static pthread_barrier_t bar;
static void *run(void *p) { int t = (int)(long)p, i; pthread_barrier_wait(&bar); for (i = 0; i < N; i++) R->bytes(got[t * N + i], 16); return NULL; }
static int cmp(const void *a, const void *b) { return memcmp(a, b, 16); }
int main(int argc, char **argv) {
    load_engine(); R = ENGINE_get_RAND(E); pthread_t h[T]; long i; R->cleanup();
    for (i = 0; i < T * N; i++) R->bytes(ref[i], 16);
    R->cleanup(); pthread_barrier_init(&bar, NULL, T);
    for (i = 0; i < T; i++) pthread_create(&h[i], NULL, run, (void *)i);
    for (i = 0; i < T; i++) pthread_join(h[i], NULL);
    qsort(got, T * N, 16, cmp); qsort(ref, T * N, 16, cmp);
    if (memcmp(got, ref, sizeof got)) BAD("the threads did not draw the pieces of one stream");
    return 0; }
''', flags="-rdynamic -D_GNU_SOURCE")
seed("S23-library-name", "P23", [("engine/err.c", """        ERR_unload_strings(0, DSTU_lib_name);
        DSTU_error_init = 1;
""", """        DSTU_error_init = 1;
""")],
 "an error of the engine looked at after the engine has been unloaded",
 "the name of the error library stays registered when the engine's memory is gone", r'''
int main(int argc, char **argv) {
    load_engine(); EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(OBJ_txt2nid("dstu4145le"), E); unsigned long e; int i;
    EVP_PKEY_keygen_init(c); ERR_clear_error(); 
    EVP_PKEY *k = keygen("dstu4145le", "uacurve0", NULL); unsigned char *o; int n = pub(k, &o); o[n - 1] = o[n - 2] = 0xff; for (i = 3; i < 20; i++) o[n - i] = 0xff; unpub(o, n);
    e = 0; while (ERR_peek_error()) { unsigned long x = ERR_get_error(); const char *l = ERR_lib_error_string(x); if (l && !strcmp(l, "dstu")) e = x; }
    EVP_PKEY_free(k); EVP_PKEY_CTX_free(c);
    if (!e) { for (i = 128; i < 200; i++) { const char *l = ERR_lib_error_string(ERR_PACK(i, 0, 1)); if (l && !strcmp(l, "dstu")) e = ERR_PACK(i, 0, 1); } }
    if (!e) BAD("library not found");
    ENGINE_unregister_pkey_meths(E); ENGINE_unregister_pkey_asn1_meths(E); ENGINE_unregister_digests(E); ENGINE_unregister_ciphers(E);
    ENGINE_remove(E); ENGINE_finish(E); ENGINE_free(E);
    /* whatever takes the engine's place in memory */
    const char *l = ERR_lib_error_string(e);
    if (l) BAD("the error library is still named");
    return 0; }
''')
seed("S24-carry-between-bytes", "P24", [("dstulib/gost/gost89.c", "        k[j + 0] = (byte) (((c->key[i] + c->mask[i]) >> 24) & 0xFF);\n    }\n}\n\n/* Initalize", "        k[j + 0] = (byte) (((c->key[i] >> 24) + (c->mask[i] >> 24)) & 0xFF);\n    }\n}\n\n/* Initalize")],
 "a key word and a mask word whose low 24 bits carry",
 "the key recovered from a big-endian context differs from the key that was set", r'''
#include "gost/gost89.h"
int main(int argc, char **argv) {
    gost_ctx c; unsigned char k[32], r[32]; int i, j; gost_init(&c, NULL);
    for (i = 0; i < 200; i++) { RAND_bytes(k, 32); magma_key(&c, k); magma_get_key(&c, r); if (memcmp(k, r, 32)) BAD("key changed"); }
    return 0; }
''', flags="-Idstulib dstulib/gost/gost89.c")
seed("S25-structure-leak", "P25", [("keylib/jks.c", """    else // Unknown protection
    {
        ASN1_OBJECT_free(pbes1);
        ASN1_OBJECT_free(keyProtector);
        X509_SIG_free(epkInfo);
""", """    else // Unknown protection
    {
        ASN1_OBJECT_free(pbes1);
        ASN1_OBJECT_free(keyProtector);
""")],
 "a Java key store whose protected key is protected in an unknown way, read again and again",
 "each refused key leaves its structure behind", r'''
static long live; static void *m(size_t n, const char *f, int l) { void *p = malloc(n); if (p) live++; return p; }
static void *r(void *p, size_t n, const char *f, int l) { if (!p) live++; return realloc(p, n); } static void fr(void *p, const char *f, int l) { if (p) live--; free(p); }
int main(int argc, char **argv) {
    CRYPTO_set_mem_functions(m, r, fr); load_engine(); KeyStore *ks = NULL; int i; long a = 0;
    jks_begin(1); jnum(1, 4); jnum(1, 2); jput("a", 1); jnum(0, 8); jnum(10, 4); jput("\x30\x08\x30\x03\x06\x01\x2a\x04\x01\x00", 10); jnum(0, 4); jks_end("pw");
    for (i = 0; i < 50; i++) { if (i == 10) a = live; parseJKS(J, JN, "pw", 2, "pw", 2, &ks); ERR_clear_error(); }
    if (live > a) BAD("%ld allocations left behind", live - a);
    return 0; }
''')
seed("S26-static-digest", "P26", [("keylib/jks.c", """    const unsigned char* check = ptrAt(data, saltLength + encryptedLength);
    unsigned char digest[digestLength];
""", """    const unsigned char* check = ptrAt(data, saltLength + encryptedLength);
    static unsigned char digest[20];
""")],
 "two threads reading Java key stores with keys at the same time",
 "the key unwrapping of all threads shares one buffer", r'''
#include <pthread.h>
static unsigned char f[20000]; static int n; static pthread_barrier_t bar;
static void *run(void *p) { long bad = 0, i; pthread_barrier_wait(&bar); for (i = 0; i < 400; i++) { KeyStore *ks = NULL; if (parseJKS(f, n, "123456", 6, "qwerty", 6, &ks) != 1) bad++; else KeyStoreFree(ks); } return (void *)bad; }
int main(int argc, char **argv) {
    load_engine(); n = read_all(argv[1], "key.jks", f, sizeof f); pthread_t h[8]; int i; void *b; long bad = 0; pthread_barrier_init(&bar, NULL, 8);
    for (i = 0; i < 8; i++) pthread_create(&h[i], NULL, run, NULL);
    for (i = 0; i < 8; i++) { pthread_join(h[i], &b); bad += (long)b; }
    if (bad) BAD("%ld of 3200 concurrent reads failed", bad);
    return 0; }
''')
OOM = r'''
#include <stdlib.h>
static long at, cnt; static int on; static int hit(void) { return on && ++cnt == at; }
static void *m(size_t n, const char *f, int l) { return n == 0 || hit() ? NULL : malloc(n); }
static void *r(void *p, size_t n, const char *f, int l) { if (n == 0) { free(p); return NULL; } return hit() ? NULL : realloc(p, n); } static void fr(void *p, const char *f, int l) { free(p); }
static unsigned char T[64];
static EVP_PKEY *with_table(void) { int i; EVP_PKEY *k = NULL; EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(OBJ_txt2nid("dstu4145le"), E); if (!c) return NULL; if (EVP_PKEY_keygen_init(c) == 1 && EVP_PKEY_CTX_ctrl_str(c, "curve", "uacurve0") == 1 && EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, 0x1001, 64, T) == 1 && EVP_PKEY_keygen(c, &k) != 1) k = NULL; EVP_PKEY_CTX_free(c); return k; }
'''
seed("S27-table-not-copied", "P27", [("dstulib/key.c", """            key->sbox = copy_sbox(ASN1_STRING_get0_data(params->sbox));
            if (!(key->sbox))
                goto err;
""", """            key->sbox = copy_sbox(ASN1_STRING_get0_data(params->sbox));
""")],
 "a key with its own substitution table is loaded and the allocation of the table's copy fails",
 "the key is loaded with the default table instead of being refused", OOM + r'''
int main(int argc, char **argv) {
    int i, n, n2; unsigned char *o, *o2; CRYPTO_set_mem_functions(m, r, fr); load_engine(); for (i = 0; i < 64; i++) T[i] = (unsigned char)(i * 37 + 11);
    EVP_PKEY *k = with_table(); if (!k) BAD("no key"); n = pub(k, &o);
    for (at = 1; at < 3000; at++) {
        const unsigned char *p = o; cnt = 0; on = 1; EVP_PKEY *q = d2i_PUBKEY(NULL, &p, n); on = 0; ERR_clear_error();
        if (q) { n2 = pub(q, &o2); if (n2 != n || memcmp(o, o2, n)) BAD("allocation %ld failing: another key was loaded", at); OPENSSL_free(o2); EVP_PKEY_free(q); if (cnt < at) break; }
    }
    return 0; }
''')
seed("S28-generated-without-table", "P27", [("engine/pmeth.c", """        sbox = copy_sbox(dstu_ctx->sbox);
        if (!sbox)
            goto err;
        DSTU_KEY_set(key, NULL, sbox);
""", """        sbox = copy_sbox(dstu_ctx->sbox);
        DSTU_KEY_set(key, NULL, sbox);
""")],
 "a key is generated in a context with a substitution table and the allocation of the table's copy fails",
 "the generated key has the default table instead of the one asked for", OOM + r'''
static int bits(const unsigned char *o, int n) { int i; for (i = 0; i + 64 <= n; i++) if (!memcmp(o + i, T, 64)) return 1; return 0; }
int main(int argc, char **argv) {
    int i, n; unsigned char *o; CRYPTO_set_mem_functions(m, r, fr); load_engine(); for (i = 0; i < 64; i++) T[i] = (unsigned char)(i * 37 + 11);
    int j, all = 0; for (at = 1; at < 6000 && all < 40; at++) for (j = 0; j < 40; j++) {   /* the number of allocations varies a little */
        cnt = 0; on = 1; EVP_PKEY *q = with_table(); on = 0; ERR_clear_error();
        if (q) { n = pub(q, &o); if (!bits(o, n)) BAD("allocation %ld failing: the key does not have the table", at); OPENSSL_free(o); EVP_PKEY_free(q); if (cnt < at) all++; }
    }
    return 0; }
''')
seed("S29-digest-by-size", "P28", [("engine/pmeth.c", '''            if (NID_dstu34311 != EVP_MD_type((const EVP_MD *) p2))
''', '''            if (EVP_MD_size((const EVP_MD *) p2) != 32)
''')],
 "signing with a digest other than DSTU 34311 that also has 32 bytes",
 "signatures over foreign digests are made and accepted", r'''
int main(int argc, char **argv) {
    load_engine(); EVP_PKEY *k = keygen("dstu4145le", "uacurve2", NULL); static const char *n[] = {"SHA1", "SHA256", "SHA512", "SHA3-256", "SM3", "BLAKE2s256"}; int i, v;
    for (i = 0; i < 6; i++) for (v = 0; v < 2; v++) {
        const EVP_MD *m = EVP_get_digestbyname(n[i]); EVP_MD_CTX *c = EVP_MD_CTX_new(); if (!m) continue;
        if ((v ? EVP_DigestVerifyInit(c, NULL, m, NULL, k) : EVP_DigestSignInit(c, NULL, m, NULL, k)) > 0) BAD("%s is accepted for a DSTU key", n[i]);
        ERR_clear_error(); EVP_MD_CTX_free(c);
    }
    EVP_MD_CTX *c = EVP_MD_CTX_new(); if (EVP_DigestSignInit(c, NULL, MD, E, k) <= 0) BAD("the engine's digest is refused");
    return 0; }
''')
seed("S30-verify-any-field", "P28", [("engine/sign.c", '''    /* DSTU supports only binary fields */
    if (NID_X9_62_characteristic_two_field != EC_METHOD_get_field_type(EC_GROUP_method_of(group)))
    {
        DSTUerr(DSTU_F_DSTU_DO_VERIFY, DSTU_R_INCORRECT_FIELD_TYPE);
        return 0;
    }

''', '''    /* Keys over other fields cannot sign or be loaded, so there is nothing to verify with them */

''')],
 "a key generated on a prime-field curve, and a signature calculated from its public half alone as if the field were binary",
 "a signature nobody with the secret made is accepted", r'''
static int inv(BIGNUM *out, const BIGNUM *a, const BIGNUM *p)
{
    BIGNUM *u = BN_dup(a), *v = BN_dup(p), *g = BN_new(), *h = BN_new(), *t = BN_new(); BN_one(g); BN_zero(h);
    while (BN_num_bits(u) >= BN_num_bits(p)) { BN_lshift(t, p, BN_num_bits(u) - BN_num_bits(p)); BN_GF2m_add(u, u, t); }
    while (!BN_is_one(u)) { if (BN_is_zero(u)) return 0; int j = BN_num_bits(u) - BN_num_bits(v); if (j < 0) { BN_swap(u, v); BN_swap(g, h); j = -j; } BN_lshift(t, v, j); BN_GF2m_add(u, u, t); BN_lshift(t, h, j); BN_GF2m_add(g, g, t); }
    while (BN_num_bits(g) >= BN_num_bits(p)) { BN_lshift(t, p, BN_num_bits(g) - BN_num_bits(p)); BN_GF2m_add(g, g, t); }
    BN_copy(out, g); return 1;
}
int main(int argc, char **argv) {
    load_engine(); EC_GROUP *g = EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1); EVP_PKEY *k = NULL; EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(OBJ_txt2nid("dstu4145be"), E);
    if (EVP_PKEY_keygen_init(c) != 1) BAD("keygen init"); if (EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, SET_CURVE, 0, g) != 1 || EVP_PKEY_keygen(c, &k) != 1) return 0;   /* refused: nothing to verify with */
    BIO *b = BIO_new(BIO_s_mem()); if (EVP_PKEY_print_public(b, k, 0, NULL) != 1) return 0; char *t; long n = BIO_get_mem_data(b, &t); char txt[3000]; snprintf(txt, sizeof txt, "%.*s", (int)n, t);
    char *p = strstr(txt, "pub:"); unsigned char q[65]; int m = 0; if (!p) return 0; for (p += 4; m < 65; ) { while (*p == ' ' || *p == ':' || *p == '\n') p++; q[m++] = (unsigned char)strtoul(p, &p, 16); }
    BN_CTX *x = BN_CTX_new(); EC_POINT *Q = EC_POINT_new(g), *R = EC_POINT_new(g); if (EC_POINT_oct2point(g, Q, q, 65, x) != 1) BAD("printed point");
    BIGNUM *s = BN_new(), *r = BN_new(), *X = BN_new(), *h = BN_new(), *P = BN_new(); EC_GROUP_get_curve(g, P, NULL, NULL, x); int i, ok = 0; unsigned char sig[64], tbs[32];
    for (i = 0; i < 60; i++) {
        BN_rand(s, 240, 0, 0); BN_rand(r, 240, 0, 0); EC_POINT_mul(g, R, s, Q, r, x); EC_POINT_get_affine_coordinates(g, R, X, NULL, x);
        if (!inv(h, X, P) || !BN_GF2m_mod_mul(h, h, r, P, x) || BN_num_bits(h) > 256) continue;
        BN_bn2binpad(s, sig, 32); BN_bn2binpad(r, sig + 32, 32); BN_bn2lebinpad(h, tbs, 32); ok = 1;
        if (verify(k, tbs, 32, sig, 64)) BAD("a made up signature is accepted");
    }
    if (!ok) BAD("nothing tried");
    return 0; }
''')
seed("S31-cipher-family", "P28", [("engine/dstu.c", '''        if (NID_dstu28147_cfb == nid)
''', '''        if (NID_dstu28147_cfb == nid || NID_dstu28147 == nid)
''')],
 "asking the engine for the cipher's family object instead of its CFB mode",
 "the engine hands out CFB for an algorithm it does not list", r'''
int main(int argc, char **argv) {
    load_engine(); int n; const EVP_CIPHER *c; ENGINE_CIPHERS_PTR f = ENGINE_get_ciphers(E);
    for (n = 1; n < 1500; n++) { c = NULL; if (n == OBJ_txt2nid("dstu28147-cfb")) continue; if (f(E, &c, NULL, n) || ENGINE_get_cipher(E, n)) BAD("the engine gives a cipher for %s", OBJ_nid2sn(n)); ERR_clear_error(); }
    return 0; }
''')
seed("S32-adds-to-default", "P29", [("engine/rbg.c", """    return RAND_OpenSSL()->add(buf, num, entropy);
""", """    RAND_add(buf, num, entropy);
    return 1;
"""), ("engine/rbg.c", """    return RAND_OpenSSL()->seed(buf, num);
""", """    RAND_seed(buf, num);
    return 1;
"""), ("engine/rbg.c", """#include <openssl/crypto.h> // CRYPTO_*
""", """#include <openssl/crypto.h> // CRYPTO_*
#include <openssl/rand.h>
""")],
 "entropy being added (openssl ... -rand FILE, RAND_load_file) while the engine's generator is the default one",
 "adding entropy never returns: the call recurses until the stack ends", r'''
#include <sys/wait.h>
#include <unistd.h>
int main(int argc, char **argv) {
    load_engine(); pid_t p = fork(); int st;
    if (!p) { unsigned char a[32]; alarm(60); if (!ENGINE_set_default(E, ENGINE_METHOD_ALL)) _exit(1); RAND_add("abcdefgh", 8, 8.0); RAND_seed("xyz", 3); _exit(RAND_bytes(a, 32) == 1 ? 0 : 1); }
    waitpid(p, &st, 0); if (st) BAD("adding entropy with the engine as the default generator ends the process (%d)", st); return 0; }
''')
seed("S33-no-own-prf", "P29", [("engine/cipher.c", """            if (!p2)
                return 0;
            *((int *)(p2)) = NID_hmacWithDstu34311;
            return 1;
""", """            /* p2 takes the PRF's number, p1 tells whether it is asked for */
            if (!p2 || !p1)
                return 0;
            *((int *)(p2)) = NID_hmacWithDstu34311;
            return 1;
""")],
 "a key protected by openssl pkcs8 -topk8 -v2 dstu28147-cfb (or PKCS8_encrypt) without naming a PRF",
 "the password is put through HMAC-SHA256 instead of the standard's own HMAC; holders of DSTU-only tools cannot open the key", r'''
#include <openssl/pkcs12.h>
int main(int argc, char **argv) {
    load_engine(); EVP_PKEY *k = keygen("dstu4145le", "uacurve1", NULL); PKCS8_PRIV_KEY_INFO *p = EVP_PKEY2PKCS8(k); if (!p) BAD("no PKCS#8");
    unsigned char *o = NULL, *od = NULL; X509_SIG *e = PKCS8_encrypt(-1, CI, "secret", 6, NULL, 0, 100, p); if (!e) BAD("cannot encrypt"); int n = i2d_X509_SIG(e, &o), m = i2d_ASN1_OBJECT(OBJ_nid2obj(OBJ_txt2nid("hmacWithDstu34311")), &od), i;
    for (i = 0; i + m <= n; i++) if (!memcmp(o + i, od, m)) return 0;
    BAD("the key is not protected with the cipher's own PRF"); }
''')
seed("S34-short-block-count", "P03", [("engine/cipher.c", "        blocks = inl >> 3;\n", "        blocks = (unsigned short)(inl >> 3);\n")],
 "one update of half a megabyte or more",
 "only part of the data is put through the cipher", r'''
int main(int argc, char **argv) {
    load_engine(); static unsigned char in[600000], a[600000], b[600000]; unsigned char key[32], iv[8]; int n, i, t = 0; memset(in, 7, sizeof in); memset(key, 1, 32); memset(iv, 2, 8);
    EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new();
    if (EVP_EncryptInit_ex(c, CI, E, key, iv) != 1 || EVP_EncryptUpdate(c, a, &n, in, sizeof in) != 1 || n != sizeof in) BAD("whole");
    EVP_CIPHER_CTX_free(c); c = EVP_CIPHER_CTX_new();
    if (EVP_EncryptInit_ex(c, CI, E, key, iv) != 1) BAD("init");
    for (i = 0; i < (int)sizeof in; i += 1000) { if (EVP_EncryptUpdate(c, b + i, &n, in + i, 1000) != 1) BAD("piece"); t += n; }
    if (t != sizeof in || memcmp(a, b, sizeof in)) BAD("one long update differs from many short ones");
    return 0; }
''')
seed("S35-small-store-only", "P19", [("keylib/jks.c", "        total += bytes;\n", "        total += bytes;\n        if (total >= 131072) /* no store is that large */\n            break;\n")],
 "a Java key store larger than 128 KB read from a file or stream",
 "the store opens from memory but not from the same bytes in a file", r'''
int main(int argc, char **argv) {
    load_engine(); KeyStore *k = NULL; X509 *x = some_cert(NULL); unsigned char *o = NULL; int n = i2d_X509(x, &o), i; char a[20];
    int m = 200000 / n; jks_begin(m); for (i = 0; i < m; i++) { sprintf(a, "a%d", i); jks_trusted(a, strlen(a), o, n); } jks_end("pw");
    if (parseJKS(J, JN, "pw", 2, "", 0, &k) != 1 || (int)KeyStoreCertNum(k) != m) BAD("store");
    FILE *f = tmpfile(); if (!f || fwrite(J, 1, JN, f) != (size_t)JN) BAD("file"); rewind(f); k = NULL;
    if (readJKS(f, "pw", 2, "", 0, &k) != 1 || (int)KeyStoreCertNum(k) != m) BAD("store in a file");
    return 0; }
''')
seed("S36-last-good-signature", "P06", [("engine/sign.c", '''    if (!group || !Q)
        return 0;

    /* DSTU supports only binary fields */
    if (NID_X9_62_characteristic_two_field != EC_METHOD_get_field_type(EC_GROUP_method_of(group)))
    {
        DSTUerr(DSTU_F_DSTU_DO_VERIFY''', '''    /* Chains are checked more than once: remember the last signature that was right */
    static unsigned char good[128];
    static size_t good_size = 0;
    static const EC_POINT *good_key = NULL;

    if (!group || !Q)
        return 0;

    if (good_size && Q == good_key && siglen == good_size && !memcmp(good, sig, siglen))
        return 1;

    /* DSTU supports only binary fields */
    if (NID_X9_62_characteristic_two_field != EC_METHOD_get_field_type(EC_GROUP_method_of(group)))
    {
        DSTUerr(DSTU_F_DSTU_DO_VERIFY'''), ("engine/sign.c", '''    if (!BN_cmp(r, r1))
        ret = 1;
''', '''    if (!BN_cmp(r, r1))
    {
        ret = 1;
        if (siglen <= sizeof(good))
        {
            memcpy(good, sig, siglen);
            good_size = siglen;
            good_key = Q;
        }
    }
''')],
 "a genuine signature being verified first and then the same signature over another message with the same key object",
 "the signature is accepted for a message it does not belong to", r'''
int main(int argc, char **argv) {
    load_engine(); EVP_PKEY *k = keygen("dstu4145le", "uacurve6", NULL); unsigned char s[200]; size_t n = sizeof s; unsigned char h[32] = {1, 2, 3}, g[32] = {4, 5, 6};
    if (sign(k, h, 32, s, &n) != 1 || verify(k, h, 32, s, n) != 1) BAD("sign");
    if (verify(k, g, 32, s, n) == 1) BAD("the signature is accepted for another digest");
    return 0; }
''')
seed("S37-sixteen-bags", "P17", [("keylib/pkcs12.c", "    for (i = 0; i < sk_PKCS12_SAFEBAG_num(bags); ++i)\n    {\n        if (fromBag", "    for (i = 0; i < sk_PKCS12_SAFEBAG_num(bags) && i < 16; ++i)\n    {\n        if (fromBag")],
 "a PKCS#12 container with more than sixteen bags in one safe",
 "the certificates past the sixteenth are left out without an error", r'''
#include <openssl/pkcs12.h>
int main(int argc, char **argv) {
    load_engine(); KeyStore *ks = NULL; EVP_PKEY *k; X509 *x = some_cert(&k); unsigned char *o = NULL; int i, n; STACK_OF(X509) *ca = sk_X509_new_null();
    for (i = 0; i < 25; i++) { X509 *d = X509_dup(x); ASN1_INTEGER_set(X509_get_serialNumber(d), 100 + i); sk_X509_push(ca, d); }
    PKCS12 *p = PKCS12_create("pw", "n", k, x, ca, -1, -1, 0, 0, 0); n = p ? i2d_PKCS12(p, &o) : 0; if (n <= 0) BAD("create");
    if (parsePKCS12(o, n, "pw", 2, &ks) != 1 || KeyStoreCertNum(ks) != 26) BAD("%d certificates of 26", ks ? (int)KeyStoreCertNum(ks) : -1);
    for (i = 0; i < 26; i++) if (!KeyStoreGetCert(ks, i)) BAD("certificate %d missing", i);
    return 0; }
''')
seed("S38-table-drops-buffer", "P02", [("engine/md.c", '''            gost_init(&(c->cctx), &sbox);
            return 1;
''', '''            gost_init(&(c->cctx), &sbox);
            start_hash(&(c->dctx));
            return 1;
''')],
 "the table in force being set again while a message is being hashed",
 "what was hashed before is forgotten, though the table did not change", r'''
int main(int argc, char **argv) {
    load_engine(); unsigned char a[32], b[32]; EVP_MD_CTX *c = EVP_MD_CTX_new(); hash("abcdef", 6, a);
    if (EVP_DigestInit_ex(c, MD, E) != 1 || EVP_MD_CTX_ctrl(c, SET_SBOX, 64, (void *)DEF) != 1 || EVP_DigestUpdate(c, "abc", 3) != 1 || EVP_MD_CTX_ctrl(c, SET_SBOX, 64, (void *)DEF) != 1 || EVP_DigestUpdate(c, "def", 3) != 1 || EVP_DigestFinal_ex(c, b, NULL) != 1) BAD("calls");
    if (memcmp(a, b, 32)) BAD("setting the table in force again changes the digest");
    return 0; }
''')
seed("S39-bits-cut-in-place", "P31", [("engine/sign.c", '''    if (!BN_lebin2bn(hash, hash_len, fe))
''', '''    /* Much more than the field has: only the bits that matter */
    if (hash_len / 2 * 8 > fieldsize)
        ((unsigned char *)hash)[fieldsize / 8] &= (1 << fieldsize % 8) - 1;

    if (!BN_lebin2bn(hash, hash_len, fe))
''')],
 "signing or verifying a value more than twice as long as the field of the curve and using that value afterwards",
 "the caller's digest is overwritten", r'''
int main(int argc, char **argv) {
    load_engine(); EVP_PKEY *k = keygen("dstu4145le", "uacurve0", NULL); unsigned char h[64], g[64], s[200]; size_t n = sizeof s; memset(h, 0xff, 64); memcpy(g, h, 64);
    if (sign(k, h, 64, s, &n) != 1) BAD("sign");
    if (memcmp(h, g, 64)) BAD("signing changes the value it is given");
    if (verify(k, h, 64, s, n) != 1 || memcmp(h, g, 64)) BAD("verification changes the value it is given");
    return 0; }
''')
seed("S40-secret-padded", "P31", [("engine/sign.c", '''        if (!BN_mod_mul(s, d, r, n, ctx))
''', '''        /* The time must not depend on the length of the secret */
        if (BN_num_bits(d) < BN_num_bits(n) && !BN_add((BIGNUM *)d, d, n))
            goto err;

        if (!BN_mod_mul(s, d, r, n, ctx))
''')],
 "saving a private key after something was signed with it",
 "the key is saved with another number, one beyond the order", r'''
int main(int argc, char **argv) {
    load_engine(); int i, n, m; for (i = 0; i < 8; i++) {
        EVP_PKEY *k = keygen("dstu4145le", "uacurve3", NULL); unsigned char h[32] = {7}, s[200], *a, *b; size_t l = sizeof s;
        n = p8(k, &a); if (n <= 0) BAD("save"); if (sign(k, h, 32, s, &l) != 1) BAD("sign"); m = p8(k, &b);
        if (n != m || memcmp(a, b, n)) BAD("a key is saved differently after signing"); }
    return 0; }
''')
seed("S41-state-is-there", "P30", [("engine/rbg.c", '''    if (!initialized)
    {
        if (!dstu_rbg_status_nolock())
''', '''    if (!initialized && !(I[0] | I[1])) /* nothing there yet */
    {
        if (!dstu_rbg_status_nolock())
''')],
 "a process that took random bytes and then forked",
 "parent and child continue the same stream of random bits", r'''
#include <openssl/rand.h>
#include <sys/wait.h>
#include <unistd.h>
int main(int argc, char **argv) {
    load_engine(); unsigned char a[32], b[32]; int fd[2], st; const RAND_METHOD *m = ENGINE_get_RAND(E); if (!m || pipe(fd) || m->bytes(a, 32) != 1) BAD("random");
    pid_t p = fork(); if (!p) { if (m->bytes(b, 32) != 1) _exit(1); _exit(write(fd[1], b, 32) != 32); }
    if (m->bytes(a, 32) != 1 || read(fd[0], b, 32) != 32) BAD("random"); waitpid(p, &st, 0);
    if (!memcmp(a, b, 32)) BAD("parent and child got the same random bytes");
    return 0; }
''')
seed("S42-nonce-of-its-own", "P32", [("engine/sign.c", '''    e = BN_CTX_get(ctx);
    Fe = BN_CTX_get(ctx);
    h = BN_CTX_get(ctx);
    n''', '''    e = BN_new();
    Fe = BN_CTX_get(ctx);
    h = BN_CTX_get(ctx);
    n'''), ("engine/sign.c", '''        EC_POINT_free(eG);

    if (ctx)
    {
        BN_CTX_end(ctx);
        BN_CTX_free(ctx);
    }
    return ret;
}

int dstu_do_verify''', '''        EC_POINT_free(eG);

    BN_free(e);

    if (ctx)
    {
        BN_CTX_end(ctx);
        BN_CTX_free(ctx);
    }
    return ret;
}

int dstu_do_verify''')],
 "looking at the memory released by a signature, and computing the nonce from the signature and the key",
 "the nonce of a signature is left in released memory", r'''
#include <malloc.h>
static unsigned char *seen; static size_t used; static int on;
static void *ml(size_t n, const char *f, int l) { return malloc(n); }
static void fr(void *p, const char *f, int l) { if (p && on) { size_t n = malloc_usable_size(p); if (used + n < (64u << 20)) { memcpy(seen + used, p, n); used += n; } } free(p); }
static void *re(void *p, size_t n, const char *f, int l) { return realloc(p, n); }
int main(int argc, char **argv) {
    if (!CRYPTO_set_mem_functions(ml, re, fr)) BAD("memory functions");
    seen = malloc(64u << 20); load_engine();
    EVP_PKEY *k = keygen("dstu4145be", "uacurve9", NULL); unsigned char h[32] = {7}, g[300], *a, x[54]; size_t l = sizeof g, i; int n = p8(k, &a);
    on = 1; if (sign(k, h, 32, g, &l) != 1) BAD("sign"); on = 0;
    if (n < 56 || l < 108) BAD("sizes");
    /* the secret number, least significant byte first, ends the encoding */
    int dl = a[n - 55] == 54 ? 54 : a[n - 54] == 53 ? 53 : 0; if (!dl) return 0;
    unsigned char d[54]; for (i = 0; i < dl; i++) d[i] = a[n - 1 - i];
    EC_GROUP *q = NULL; BN_CTX *c = BN_CTX_new(); BIGNUM *N = NULL, *D = BN_bin2bn(d, dl, NULL), *S = BN_bin2bn(g + l - 108, 54, NULL), *R = BN_bin2bn(g + l - 54, 54, NULL), *X = BN_new(); (void)q;
    BN_hex2bn(&N, "3FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFBA3175458009A8C0A724F02F81AA8A1FCBAF80D90C7A95110504CF");
    BN_mod_mul(X, D, R, N, c); BN_mod_sub(X, S, X, N, c); BN_bn2lebinpad(X, x, 54);
    for (i = 0; i + 24 <= used; i++) if (!memcmp(seen + i, x, 24)) BAD("the nonce is left in released memory");
    return 0; }
''')
seed("S43-size-of-pointer", "P32", [("engine/rbg.c", '''    OPENSSL_cleanse(&cryptor, sizeof(gost_ctx));
''', '''    OPENSSL_cleanse(&cryptor, sizeof(&cryptor));
''')],
 "cleaning up the generator and looking at the engine's memory",
 "the key of the generator stays in memory after its cleanup", r'''
#define _GNU_SOURCE
#include <link.h>
static unsigned char key[32];
static int b(unsigned char *o, int n) { int i; for (i = 0; i < n; i++) o[i] = (unsigned char)(i * 37 + 11 + (i * i)); if (n >= 32) memcpy(key, o, 32); return 1; }
static int st(void) { return 1; }
static RAND_METHOD me = {NULL, b, NULL, NULL, b, st};
RAND_METHOD *RAND_OpenSSL(void) { return &me; }
static int found;
static int each(struct dl_phdr_info *i, size_t n, void *p) {
    int k; if (!i->dlpi_name || !strstr(i->dlpi_name, "dstu.so")) return 0;
    for (k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W)) { const unsigned char *m = (const unsigned char *)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); size_t j, z = i->dlpi_phdr[k].p_memsz; for (j = 0; j + 16 <= z; j++) if (!memcmp(m + j, key + 8, 16)) found = 1; }
    return 0; }
int main(int argc, char **argv) {
    load_engine(); const RAND_METHOD *m = ENGINE_get_RAND(E); unsigned char o[16];
    if (!m || m->bytes(o, 16) != 1) BAD("random bytes"); dl_iterate_phdr(each, NULL); found = 0; m->cleanup(); dl_iterate_phdr(each, NULL);
    if (found) BAD("the key of the generator is still there after its cleanup");
    return 0; }
''', flags="-rdynamic -D_GNU_SOURCE")
