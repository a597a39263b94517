/* helpers of the demonstrations: the engine built in /repo/_build */
#include <openssl/bn.h>
#include <openssl/cms.h>
#include <openssl/ec.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/objects.h>
#include <openssl/pem.h>
#include <openssl/rand.h>
#include <openssl/x509.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define SET_SBOX (EVP_MD_CTRL_ALG_CTRL + 1)
#define SET_CURVE (EVP_PKEY_ALG_CTRL + 2)
#define BAD(...) do { printf(__VA_ARGS__); printf("\n"); exit(1); } while (0)
static ENGINE *E;
static const EVP_MD *MD;
static const EVP_CIPHER *CI;
static const unsigned char DEF[64] = {
    0xa9, 0xd6, 0xeb, 0x45, 0xf1, 0x3c, 0x70, 0x82, 0x80, 0xc4, 0x96, 0x7b, 0x23, 0x1f, 0x5e, 0xad,
    0xf6, 0x58, 0xeb, 0xa4, 0xc0, 0x37, 0x29, 0x1d, 0x38, 0xd9, 0x6b, 0xf0, 0x25, 0xca, 0x4e, 0x17,
    0xf8, 0xe9, 0x72, 0x0d, 0xc6, 0x15, 0xb4, 0x3a, 0x28, 0x97, 0x5f, 0x0b, 0xc1, 0xde, 0xa3, 0x64,
    0x38, 0xb5, 0x64, 0xea, 0x2c, 0x17, 0x9f, 0xd0, 0x12, 0x3e, 0x6d, 0xb8, 0xfa, 0xc5, 0x79, 0x04};
static void load_engine(void)
{
    ENGINE_load_dynamic();
    E = ENGINE_by_id("dynamic");
    if (!E || !ENGINE_ctrl_cmd_string(E, "SO_PATH", getenv("DSTU_SO"), 0) || !ENGINE_ctrl_cmd_string(E, "LIST_ADD", "1", 0) ||
        !ENGINE_ctrl_cmd_string(E, "LOAD", NULL, 0) || !ENGINE_init(E)) BAD("engine not loaded");
    ENGINE_set_default(E, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
    MD = ENGINE_get_digest(E, OBJ_txt2nid("dstu34311"));
    CI = ENGINE_get_cipher(E, OBJ_txt2nid("dstu28147-cfb"));
    if (!MD) MD = EVP_get_digestbyname("dstu34311");
    if (!CI) CI = ENGINE_get_cipher(E, OBJ_txt2nid("1.2.804.2.1.1.1.1.1.1.3"));
    if (!MD || !CI) BAD("algorithms not found");
}
static void hash(const void *p, size_t n, unsigned char o[32]) { if (EVP_Digest(p, n, o, NULL, MD, E) != 1) BAD("digest failed"); }
/* a key on a named curve, optionally with a table */
static EVP_PKEY *keygen(const char *type, const char *curve, const unsigned char *table)
{
    EVP_PKEY *k = NULL; EVP_PKEY_CTX *c = EVP_PKEY_CTX_new_id(OBJ_txt2nid(type), E);
    if (!c || EVP_PKEY_keygen_init(c) != 1) BAD("keygen init");
    if (curve && EVP_PKEY_CTX_ctrl_str(c, "curve", curve) != 1) BAD("curve");
    if (table && EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, SET_SBOX, 64, (void *)table) != 1) BAD("table");
    if (EVP_PKEY_keygen(c, &k) != 1) BAD("keygen");
    EVP_PKEY_CTX_free(c);
    return k;
}
static int pub(EVP_PKEY *k, unsigned char **o) { *o = NULL; return i2d_PUBKEY(k, o); }
static int p8(EVP_PKEY *k, unsigned char **o) { PKCS8_PRIV_KEY_INFO *p = EVP_PKEY2PKCS8(k); int n; *o = NULL; if (!p) return -1; n = i2d_PKCS8_PRIV_KEY_INFO(p, o); PKCS8_PRIV_KEY_INFO_free(p); return n; }
static EVP_PKEY *unpub(const unsigned char *b, int n) { const unsigned char *q = b; return d2i_PUBKEY(NULL, &q, n); }
static EVP_PKEY *unp8(const unsigned char *b, int n) { const unsigned char *q = b; PKCS8_PRIV_KEY_INFO *p = d2i_PKCS8_PRIV_KEY_INFO(NULL, &q, n); EVP_PKEY *k = p ? EVP_PKCS82PKEY(p) : NULL; PKCS8_PRIV_KEY_INFO_free(p); return k; }
static int sign(EVP_PKEY *k, const void *t, size_t tn, unsigned char *s, size_t *n) { EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, E); int r = EVP_PKEY_sign_init(c) == 1 && EVP_PKEY_sign(c, s, n, t, tn) == 1; EVP_PKEY_CTX_free(c); return r; }
static int verify(EVP_PKEY *k, const void *t, size_t tn, const unsigned char *s, size_t n) { EVP_PKEY_CTX *c = EVP_PKEY_CTX_new(k, E); int r = EVP_PKEY_verify_init(c) == 1 && EVP_PKEY_verify(c, s, n, t, tn) == 1; EVP_PKEY_CTX_free(c); return r; }

/* ---- containers. JKS writer: J[0..JN) */
#include <keylib.h>
#include <openssl/pkcs12.h>
#include <openssl/sha.h>
#include <openssl/rsa.h>
static unsigned char J[300000]; static int JN;
static void jput(const void *p, int n) { memcpy(J + JN, p, n); JN += n; }
static void jnum(unsigned long v, int bytes) { while (bytes--) J[JN++] = (unsigned char)(v >> (8 * bytes)); }
static int u16be(const char *pw, unsigned char *o) { int n = 0; for (; *pw; pw++) { o[n++] = 0; o[n++] = *pw; } return n; }
static void jks_begin(int entries) { JN = 0; jnum(0xfeedfeed, 4); jnum(2, 4); jnum(entries, 4); }
static void jks_cert(const unsigned char *der, int n) { jnum(5, 2); jput("X.509", 5); jnum(n, 4); jput(der, n); }
static void jks_trusted(const char *alias, int alen, const unsigned char *der, int n) { jnum(2, 4); jnum(alen, 2); jput(alias, alen); jnum(0, 8); jks_cert(der, n); }
/* a key entry up to its certificate chain */
static void jks_key(const char *alias, int alen, const unsigned char *p8, int n, const char *pw, int chain)
{
    unsigned char u[200], d[20], prot[20000], *o = NULL; int un = u16be(pw, u), i; SHA_CTX c; memset(prot, 0x5c, 20); memcpy(d, prot, 20);
    for (i = 0; i < n; i++) { if (i % 20 == 0) { SHA1_Init(&c); SHA1_Update(&c, u, un); SHA1_Update(&c, d, 20); SHA1_Final(d, &c); } prot[20 + i] = p8[i] ^ d[i % 20]; }
    SHA1_Init(&c); SHA1_Update(&c, u, un); SHA1_Update(&c, p8, n); SHA1_Final(prot + 20 + n, &c);
    X509_SIG *s = X509_SIG_new(); X509_ALGOR *a; ASN1_OCTET_STRING *os; X509_SIG_getm(s, &a, &os);
    X509_ALGOR_set0(a, OBJ_txt2obj("1.3.6.1.4.1.42.2.17.1.1", 1), V_ASN1_NULL, NULL); ASN1_OCTET_STRING_set(os, prot, 40 + n);
    int on = i2d_X509_SIG(s, &o); X509_SIG_free(s);
    jnum(1, 4); jnum(alen, 2); jput(alias, alen); jnum(0, 8); jnum(on, 4); jput(o, on); jnum(chain, 4); OPENSSL_free(o);
}
static void jks_end(const char *pw)
{
    unsigned char u[200], d[20]; int un = u16be(pw, u); SHA_CTX c;
    SHA1_Init(&c); SHA1_Update(&c, u, un); SHA1_Update(&c, "Mighty Aphrodite", 16); SHA1_Update(&c, J, JN); SHA1_Final(d, &c); jput(d, 20);
}
static X509 *some_cert(EVP_PKEY **key)
{
    EVP_PKEY *k = EVP_EC_gen("P-256"); X509 *x = X509_new(); X509_set_pubkey(x, k); ASN1_INTEGER_set(X509_get_serialNumber(x), 7);
    X509_gmtime_adj(X509_getm_notBefore(x), 0); X509_gmtime_adj(X509_getm_notAfter(x), 86400);
    X509_NAME_add_entry_by_txt(X509_get_subject_name(x), "CN", MBSTRING_ASC, (const unsigned char *)"a", -1, -1, 0);
    X509_set_issuer_name(x, X509_get_subject_name(x)); X509_sign(x, k, EVP_sha256()); if (key) *key = k; return x;
}
static int read_all(const char *dir, const char *name, unsigned char *b, int cap)
{
    char f[4000]; snprintf(f, sizeof f, "%s/tests/%s", dir, name); FILE *p = fopen(f, "rb"); if (!p) BAD("no %s", f);
    int n = fread(b, 1, cap, p); fclose(p); return n;
}
