// P07: CMS and PKCS#7 signed data through the engine's keys.
#include "cont.h"
#include <openssl/cms.h>
#include <openssl/pkcs7.h>
#include <openssl/pkcs12.h>
#include <algorithm>
using namespace dk;

namespace
{
Cert cert_of(const RefKey& k, uint8_t serial)
{
    Bytes alg = der::seqb(alg_oid(k.le)), name = der::seqb(der::setb(der::seq({der::oid("2.5.4.3"), der::utf8("signer")})));
    static const char* t0 = "200101000000Z"; static const char* t1 = "491231235959Z";
    Bytes val = der::seq({der::tlv(0x17, Bytes(t0, t0 + 13)), der::tlv(0x17, Bytes(t1, t1 + 13))});
    Bytes d = der::seq({der::seq({der::ctx(0, der::integer(2)), der::integer(serial), alg, name, val, name, spki(k)}), alg, der::bits(Bytes(64, 1))});
    const uint8_t* p = d.data();
    Cert x(d2i_X509(nullptr, &p, (long)d.size()));
    REQUIRE(x && X509_get0_pubkey(x), "a certificate with the key %s is not usable: %s", describe(k).c_str(), err_text().c_str());
    return x;
}
Bio mem(const Bytes& b) { return Bio(BIO_new_mem_buf(b.empty() ? (const void*)"" : b.data(), (int)b.size())); }
struct Certs { STACK_OF(X509)* s = sk_X509_new_null(); ~Certs() { sk_X509_free(s); } void add(X509* x) { sk_X509_push(s, x); } };
using Cms = Own<CMS_ContentInfo, CMS_ContentInfo_free>;
using P7 = Own<PKCS7, PKCS7_free>;
Bytes attrs_der(std::vector<Bytes> v) { std::sort(v.begin(), v.end()); Bytes all; for (auto& x : v) all.insert(all.end(), x.begin(), x.end()); return der::setb(all); }
template<class T> Bytes i2d(T* x, int (*f)(T*, uint8_t**)) { uint8_t* t = nullptr; int n = f(x, &t); REQUIRE(n > 0, "encoding failed"); Bytes r(t, t + n); OPENSSL_free(t); return r; }
int i2d_attr(X509_ATTRIBUTE* a, uint8_t** t) { return i2d_X509_ATTRIBUTE(a, t); }
int i2d_cms(CMS_ContentInfo* a, uint8_t** t) { return i2d_CMS_ContentInfo(a, t); }
int i2d_p7(PKCS7* a, uint8_t** t) { return i2d_PKCS7(a, t); }

Bytes reference_signature(Src& s, const RefKey& k, const Bytes& tbs)
{
    Sig g;
    for (int i = 0; i < 20; ++i) { Bn e(b2bn(gen_secret(s, *k.c))); if (sign(k, tbs, e, &g)) return der::oct(sig_raw(k, g)); }
    throw Discard();
}
void compare_out(BIO* out, const Bytes& content, const char* what)
{
    char* t; long n = BIO_get_mem_data(out, &t);
    REQUIRE(Bytes(t, t + n) == content, "%s: the verified content differs from the signed one", what);
}
}

SCENARIO("P07", cms_signed, 2500, 100000, 0, "signed attributes, a non-default table, several signers or tampering")
{
    g_seed.fake_time = true; g_seed.time = 1700000000 + (int64_t)s.below(1 << 24);
    int ns = s.chance(60) ? 2 : 1;
    RefKey k[2], other = gen_key(s, 0); PKey e[2]; Cert x[2];
    for (int i = 0; i < ns; ++i) { k[i] = gen_key(s, 0); e[i] = eng_priv(k[i], s.flip()); x[i] = cert_of(k[i], uint8_t(1 + i)); }
    Bytes content = s.blob(s.len(s.chance(30) ? 3000 : 150));
    bool attrs = s.below(3) != 0, detached = s.flip();
    unsigned fl = CMS_BINARY | CMS_PARTIAL | CMS_NOSMIMECAP | (detached ? CMS_DETACHED : 0) | (attrs ? 0 : CMS_NOATTR);
    g_rng.reset(s.bits(2));
    Bio in = mem(content);
    Cms c(CMS_sign(nullptr, nullptr, nullptr, in, fl));
    REQUIRE(c, "signed data cannot be started: %s", err_text().c_str());
    for (int i = 0; i < ns; ++i)
        REQUIRE(CMS_add1_signer(c, x[i], e[i], s.flip() ? MD() : nullptr, fl), "signer refused: %s (%s)", err_text().c_str(), describe(k[i]).c_str());
    in = mem(content);
    REQUIRE(CMS_final(c, in, nullptr, fl) == 1, "signing fails: %s (%s)", err_text().c_str(), describe(k[0]).c_str());
    // every signer's data
    STACK_OF(CMS_SignerInfo)* sis = CMS_get0_SignerInfos(c);
    REQUIRE(sk_CMS_SignerInfo_num(sis) == ns, "%d signers", sk_CMS_SignerInfo_num(sis));
    Bytes tbs[2];
    for (int i = 0; i < ns; ++i)
    {
        CMS_SignerInfo* si = sk_CMS_SignerInfo_value(sis, i);
        int w = CMS_SignerInfo_cert_cmp(si, x[0]) == 0 ? 0 : 1;
        X509_ALGOR *dg, *sg; CMS_SignerInfo_get0_algs(si, nullptr, nullptr, &dg, &sg);
        REQUIRE(OBJ_obj2nid(dg->algorithm) == NID_dstu34311, "digest algorithm %s", OBJ_nid2sn(OBJ_obj2nid(dg->algorithm)));
        REQUIRE(OBJ_obj2nid(sg->algorithm) == (k[w].le ? NID_dstu4145le : NID_dstu4145be), "signature algorithm %s for a %s key", OBJ_nid2sn(OBJ_obj2nid(sg->algorithm)), k[w].le ? "little-endian" : "big-endian");
        if (attrs)
        {
            std::vector<Bytes> v;
            for (int j = 0; j < CMS_signed_get_attr_count(si); ++j) v.push_back(i2d(CMS_signed_get_attr(si, j), i2d_attr));
            tbs[w] = ref::hash(k[w].sbox(), attrs_der(v));
        }
        else tbs[w] = ref::hash(ref::dflt(), content);     // OpenSSL hashes the content before it knows the signer
        ASN1_OCTET_STRING* sig = CMS_SignerInfo_get0_signature(si);
        Bytes sb(ASN1_STRING_get0_data(sig), ASN1_STRING_get0_data(sig) + ASN1_STRING_length(sig));
        REQUIRE(verify_bytes(k[w], tbs[w], sb), "the signature in signed data %s attributes is not valid for the %s hashed with the key's table: %s", attrs ? "with" : "without", attrs ? "attributes" : "content", describe(k[w]).c_str());
        checked(3);
        if (s.flip())
        {
            Bytes r = reference_signature(s, k[w], tbs[w]);
            ASN1_OCTET_STRING_set(sig, r.data(), (int)r.size()); label("reference signature");
        }
    }
    Bytes enc = i2d(c.get(), i2d_cms);
    unsigned vf = CMS_BINARY | CMS_NO_SIGNER_CERT_VERIFY | CMS_NOINTERN;
    auto check = [&](const Bytes& der, Certs& certs, const Bytes& cont, Bytes* out) {
        const uint8_t* p = der.data(); Cms d(d2i_CMS_ContentInfo(nullptr, &p, (long)der.size()));
        if (!d) return -1;
        Bio o(BIO_new(BIO_s_mem())), dc = mem(cont);
        int r = CMS_verify(d, certs.s, nullptr, detached ? dc.get() : nullptr, o, vf);
        if (r == 1 && out) { char* t; long n = BIO_get_mem_data(o.get(), &t); out->assign(t, t + n); }
        return r == 1 ? 1 : 0;
    };
    note("%s%s signers=%d content=%zu%s%s", describe(k[0]).c_str(), ns > 1 ? " +1" : "", ns, content.size(), attrs ? " attrs" : "", detached ? " detached" : "");
    Certs good; for (int i = 0; i < ns; ++i) good.add(x[i]);
    Bytes out;
    REQUIRE(check(enc, good, content, &out) == 1, "genuine signed data is rejected: %s", err_text().c_str());
    REQUIRE(detached || out == content, "the content comes out changed");
    checked(2);
    ERR_clear_error();
    // tampering
    switch (s.below(4))
    {
        case 0:    // another key under the same name
        {
            int w = (int)s.below(ns);
            RefKey o = s.flip() ? clone(k[w]) : std::move(other);
            if (o.c == k[w].c && o.d == k[w].d) { Bytes d = gen_secret(s, *o.c); if (d == o.d) break; set_secret(o, d); }
            Cert y = cert_of(o, uint8_t(1 + w)); Certs bad;
            for (int i = 0; i < ns; ++i) bad.add(i == w ? y : x[i]);
            REQUIRE(check(enc, bad, content, nullptr) == 0, "signed data verifies under another key: %s / %s", describe(k[w]).c_str(), describe(o).c_str());
            checked(); label("other key"); break;
        }
        case 1:    // another content
        {
            if (!detached) break;
            Bytes m = content; if (m.empty() || s.flip()) m.push_back(s.byte()); else m[s.below(m.size())] ^= uint8_t(1 << s.below(8));
            // (two hashes may agree on the bits a small field keeps: not with fields of 163 bits and more)
            REQUIRE(check(enc, good, m, nullptr) == 0, "signed data verifies for another content");
            checked(); label("other content"); break;
        }
        case 2:    // another signature
        {
            int i = (int)s.below(ns); CMS_SignerInfo* si = sk_CMS_SignerInfo_value(sis, i);
            int w = CMS_SignerInfo_cert_cmp(si, x[0]) == 0 ? 0 : 1;
            ASN1_OCTET_STRING* sig = CMS_SignerInfo_get0_signature(si);
            Bytes sb(ASN1_STRING_get0_data(sig), ASN1_STRING_get0_data(sig) + ASN1_STRING_length(sig));
            if (s.chance(40)) sb.resize(s.below(sb.size())); else sb[s.below(sb.size())] ^= uint8_t(1 << s.below(8));
            bool want = verify_bytes(k[w], tbs[w], sb);
            ASN1_OCTET_STRING_set(sig, sb.data(), (int)sb.size());
            REQUIRE(check(i2d(c.get(), i2d_cms), good, content, nullptr) == (want ? 1 : 0), "a changed signature is %s in signed data (%s, %s)", want ? "rejected" : "accepted", describe(k[w]).c_str(), hex(sb).c_str());
            checked(); label("other signature"); break;
        }
        default:   // the table of the key is part of what is signed
        {
            int w = (int)s.below(ns); if (!attrs) break;
            RefKey o = clone(k[w]); o.table = gen_table(s);
            if (o.sbox().k[0][0] == k[w].sbox().k[0][0] && !memcmp(&o.table[0], k[w].table.empty() ? ref::DEFAULT_PACKED : k[w].table.data(), 64)) break;
            Cert y = cert_of(o, uint8_t(1 + w)); Certs bad;
            for (int i = 0; i < ns; ++i) bad.add(i == w ? y : x[i]);
            CMS_SignerInfo* si = nullptr; for (int i = 0; i < ns; ++i) if (CMS_SignerInfo_cert_cmp(sk_CMS_SignerInfo_value(sis, i), x[w]) == 0) si = sk_CMS_SignerInfo_value(sis, i);
            std::vector<Bytes> v; for (int j = 0; j < CMS_signed_get_attr_count(si); ++j) v.push_back(i2d(CMS_signed_get_attr(si, j), i2d_attr));
            ASN1_OCTET_STRING* sig = CMS_SignerInfo_get0_signature(si);
            Bytes sb(ASN1_STRING_get0_data(sig), ASN1_STRING_get0_data(sig) + ASN1_STRING_length(sig));
            bool want = verify_bytes(o, ref::hash(o.sbox(), attrs_der(v)), sb);
            REQUIRE(check(enc, bad, content, nullptr) == (want ? 1 : 0), "signed data verifies under the key with another table");
            checked(); label("other table");
        }
    }
    if (attrs || ns > 1 || !k[0].default_table()) nontrivial();
    label(attrs ? "attributes" : "no attributes");
}

// PKCS#7: OpenSSL hashes attributes without the key when it verifies, so that only keys with the default table can be
// used there
SCENARIO("P07", pkcs7_signed, 1500, 60000, 0, "every case")
{
    g_seed.fake_time = true; g_seed.time = 1700000000 + (int64_t)s.below(1 << 24);
    bool attrs = s.flip(), detached = s.flip();
    RefKey k = gen_key(s, 0); if (attrs) k.table.clear();
    PKey e = eng_priv(k, s.flip()); Cert x = cert_of(k, 1);
    Bytes content = s.blob(s.len(150));
    int fl = PKCS7_BINARY | PKCS7_NOSMIMECAP | (detached ? PKCS7_DETACHED : 0) | (attrs ? 0 : PKCS7_NOATTR);
    g_rng.reset(s.bits(2));
    Bio in = mem(content);
    P7 p(PKCS7_sign(x, e, nullptr, in, fl));
    note("%s content=%zu%s%s", describe(k).c_str(), content.size(), attrs ? " attrs" : "", detached ? " detached" : "");
    REQUIRE(p, "PKCS#7 signing fails: %s (%s)", err_text().c_str(), describe(k).c_str());
    PKCS7_SIGNER_INFO* si = sk_PKCS7_SIGNER_INFO_value(PKCS7_get_signer_info(p), 0);
    REQUIRE(si, "no signer");
    X509_ALGOR *dg, *sg; PKCS7_SIGNER_INFO_get0_algs(si, nullptr, &dg, &sg);
    REQUIRE(OBJ_obj2nid(dg->algorithm) == NID_dstu34311 && OBJ_obj2nid(sg->algorithm) == (k.le ? NID_dstu4145le : NID_dstu4145be), "algorithms %s, %s for a %s key",
            OBJ_nid2sn(OBJ_obj2nid(dg->algorithm)), OBJ_nid2sn(OBJ_obj2nid(sg->algorithm)), k.le ? "little-endian" : "big-endian");
    Bytes tbs;
    if (attrs)
    {
        std::vector<Bytes> v; STACK_OF(X509_ATTRIBUTE)* a = PKCS7_get_signed_attributes(si);
        for (int j = 0; j < sk_X509_ATTRIBUTE_num(a); ++j) v.push_back(i2d(sk_X509_ATTRIBUTE_value(a, j), i2d_attr));
        tbs = ref::hash(ref::dflt(), attrs_der(v));
    }
    else tbs = ref::hash(ref::dflt(), content);
    auto sigb = [&] { return Bytes(ASN1_STRING_get0_data(si->enc_digest), ASN1_STRING_get0_data(si->enc_digest) + ASN1_STRING_length(si->enc_digest)); };
    REQUIRE(verify_bytes(k, tbs, sigb()), "the signature in PKCS#7 data is not valid (%s)", describe(k).c_str());
    if (s.flip()) { Bytes r = reference_signature(s, k, tbs); ASN1_OCTET_STRING_set(si->enc_digest, r.data(), (int)r.size()); }
    bool want = true;
    unsigned how = (unsigned)s.below(4); Bytes cont = content;
    if (how == 1) { Bytes b = sigb(); b[s.below(b.size())] ^= uint8_t(1 << s.below(8)); want = verify_bytes(k, tbs, b); ASN1_OCTET_STRING_set(si->enc_digest, b.data(), (int)b.size()); }
    if (how == 2 && detached) { cont.push_back(s.byte()); want = false; }
    Bytes enc = i2d(p.get(), i2d_p7);
    const uint8_t* q = enc.data(); P7 d(d2i_PKCS7(nullptr, &q, (long)enc.size()));
    REQUIRE(d, "PKCS#7 data cannot be read back");
    Certs cs; 
    RefKey o; Cert y;
    if (how == 3) { o = clone(k); Bytes dd = gen_secret(s, *o.c); if (dd != o.d) want = false; set_secret(o, dd); y = cert_of(o, 1); cs.add(y); } else cs.add(x);
    Bio out(BIO_new(BIO_s_mem())), dc = mem(cont);
    int r = PKCS7_verify(d, cs.s, nullptr, detached ? dc.get() : nullptr, out, PKCS7_BINARY | PKCS7_NOVERIFY | PKCS7_NOINTERN);
    REQUIRE((r == 1) == want, "PKCS#7 data (variation %u) is %s: %s (%s)", how, want ? "rejected" : "accepted", err_text().c_str(), describe(k).c_str());
    if (r == 1) compare_out(out, content, "PKCS#7");
    ERR_clear_error(); checked(4); nontrivial();
    label(attrs ? "attributes" : "no attributes");
}

// ------------------------------------------------------------------ P13: damaged messages and protected keys
namespace
{
using P8o = Own<PKCS8_PRIV_KEY_INFO, PKCS8_PRIV_KEY_INFO_free>;
using SigO = Own<X509_SIG, X509_SIG_free>;
using Pbe2 = Own<PBE2PARAM, PBE2PARAM_free>;
// one algorithm identifier with its parameters gone or of another kind
void odd_parameters(Src& s, std::vector<mut::T>& top, std::string* how)
{
    std::vector<std::pair<std::vector<mut::T>*, size_t>> all, algs; mut::collect(top, &all);
    for (auto& p : all) { mut::T& t = (*p.first)[p.second]; if (t.cons && t.tag == 0x30 && !t.kids.empty() && t.kids[0].tag == 6) algs.push_back(p); }
    if (algs.empty()) return;
    auto pk = algs[s.below(algs.size())]; mut::T& t = (*pk.first)[pk.second];
    bool had = t.kids.size() > 1; if (had) t.kids.resize(1);
    mut::T n;
    switch (s.below(6))
    {
        case 0: case 1: *how += "no-parameters "; return;
        case 2: n.tag = 5; break;
        case 3: n.tag = 4; n.val = s.raw(s.below(90)); break;
        case 4: n.tag = 0x30; n.val = s.raw(s.below(90)); break;
        default: { static const uint8_t tags[] = {0x01, 0x02, 0x06, 0x0c, 0x31, 0xa0, 0x80, 0x24}; n.tag = tags[s.below(8)]; n.val = s.raw(s.below(12)); }
    }
    *how += "odd-parameters "; t.kids.push_back(n);
}
bool documented(const ASN1_TYPE* p)
{
    if (!p || p->type != V_ASN1_SEQUENCE) return false;
    const uint8_t* d = ASN1_STRING_get0_data(p->value.sequence); int n = ASN1_STRING_length(p->value.sequence);
    return n == 78 && d[0] == 0x30 && d[1] == 76 && d[2] == 4 && d[3] == 8 && d[12] == 4 && d[13] == 64;
}
}
SCENARIO("P13", malformed_messages, 8000, 250000, FUZZABLE, "the structure was changed")
{
    RefKey k = gen_key(s, 0); std::string how;
    Bytes pass = s.blob(1 + s.below(20)), content = s.blob(s.len(80)), key = s.noise(32), good;
    int kind = (int)s.below(5);
    g_rng.reset(s.bits(2));
    g_seed.fake_time = true; g_seed.time = 1700000000;
    Cert x; PKey e;
    if (kind == 0)
    {
        Bytes salt = s.noise(8), iv = s.noise(8), tb = gen_table(s);
        Bytes ct = ref::cfb(ref::unpack(tb.data()), ref::pbkdf2(ref::dflt(), pass, salt, 2, 32).data(), iv.data(), pkcs8(k), true);
        Bytes kdf = der::seq({der::oid("1.2.840.113549.1.5.12"), der::seq({der::oct(salt), der::integer(2), der::seq({der::oid("1.2.804.2.1.1.1.1.1.2"), der::null()})})});
        good = der::seq({der::seq({der::oid("1.2.840.113549.1.5.13"), der::seq({kdf, der::seq({der::oid("1.2.804.2.1.1.1.1.1.1.3"), der::seq({der::oct(iv), der::oct(tb)})})})}), der::oct(ct)});
    }
    else if (kind == 1)
    {
        Bio b = mem(content); Cms c(CMS_EncryptedData_encrypt(b, CIPHER(), key.data(), key.size(), CMS_BINARY));
        REQUIRE(c, "encrypted data cannot be made: %s", err_text().c_str()); good = i2d(c.get(), i2d_cms);
    }
    else
    {
        e = eng_priv(k); x = cert_of(k, 1); Bio b = mem(content);
        if (kind == 2) { Cms c(CMS_sign(x, e, nullptr, b, CMS_BINARY | CMS_NOSMIMECAP)); REQUIRE(c, "signed data cannot be made: %s", err_text().c_str()); good = i2d(c.get(), i2d_cms); }
        else if (kind == 3) { P7 c(PKCS7_sign(x, e, nullptr, b, PKCS7_BINARY | PKCS7_NOSMIMECAP)); REQUIRE(c, "PKCS#7 data cannot be made: %s", err_text().c_str()); good = i2d(c.get(), i2d_p7); }
        else { uint8_t* t = nullptr; int n = i2d_X509(x, &t); good.assign(t, t + n); OPENSSL_free(t); }
    }
    Bytes m; std::vector<mut::T> t;
    if (s.flip() && mut::parse(good, &t)) { odd_parameters(s, t, &how); if (s.chance(40)) odd_parameters(s, t, &how); m = mut::encode(t); }
    else m = mut::der_mutate(s, good, &how);
    m = ct::calm(m);
    if (m != good) nontrivial();
    static const char* names[] = {"protected key", "encrypted data", "signed data", "PKCS#7 signed data", "certificate"};
    note("%s: %s", names[kind], how.c_str()); label(names[kind]);
    std::unique_ptr<uint8_t[]> h(new uint8_t[m.size() + !m.size()]); if (!m.empty()) memcpy(h.get(), m.data(), m.size());
    const uint8_t* q = h.get(); bool ok = false;
    Bio out(BIO_new(BIO_s_mem()));
    auto use_key = [&](EVP_PKEY* p) {
        if (!p) return;
        ok = true; bool enc; out_pkcs8(p, &enc);
        Bio pr(BIO_new(BIO_s_mem())); EVP_PKEY_print_public(pr, p, 0, nullptr); EVP_PKEY_print_private(pr, p, 0, nullptr); EVP_PKEY_print_params(pr, p, 0, nullptr);
    };
    switch (kind)
    {
        case 0:
        {
            SigO sg(d2i_X509_SIG(nullptr, &q, (long)m.size())); if (!sg) break;
            P8o p(PKCS8_decrypt(sg, (char*)pass.data(), (int)pass.size())); if (!p) break;
            const X509_ALGOR* a; X509_SIG_get0(sg, &a, nullptr);
            if (OBJ_obj2nid(a->algorithm) == NID_pbes2 && a->parameter && a->parameter->type == V_ASN1_SEQUENCE)
            {
                const uint8_t* z = ASN1_STRING_get0_data(a->parameter->value.sequence);
                Pbe2 pb(d2i_PBE2PARAM(nullptr, &z, ASN1_STRING_length(a->parameter->value.sequence)));
                if (pb && OBJ_obj2nid(pb.get()->encryption->algorithm) == NID_dstu28147_cfb)
                    REQUIRE(documented(pb.get()->encryption->parameter), "a key protected with cipher parameters other than the documented ones is opened (%s): %s", how.c_str(), hex(m, 400).c_str());
            }
            use_key(PKey(EVP_PKCS82PKEY(p))); break;
        }
        case 1:
        {
            Cms c(d2i_CMS_ContentInfo(nullptr, &q, (long)m.size())); if (!c) break;
            ok = CMS_EncryptedData_decrypt(c, key.data(), key.size(), nullptr, out, CMS_BINARY) == 1; break;
        }
        case 2:
        {
            Cms c(d2i_CMS_ContentInfo(nullptr, &q, (long)m.size())); if (!c) break;
            Certs cs; cs.add(x); ok = CMS_verify(c, cs.s, nullptr, nullptr, out, CMS_BINARY | CMS_NO_SIGNER_CERT_VERIFY | (s.flip() ? CMS_NOINTERN : 0)) == 1; break;
        }
        case 3:
        {
            P7 c(d2i_PKCS7(nullptr, &q, (long)m.size())); if (!c) break;
            Certs cs; cs.add(x); ok = PKCS7_verify(c, cs.s, nullptr, nullptr, out, PKCS7_BINARY | PKCS7_NOVERIFY | (s.flip() ? PKCS7_NOINTERN : 0)) == 1; break;
        }
        default:
        {
            Cert c(d2i_X509(nullptr, &q, (long)m.size())); if (!c) break;
            X509_print(out, c); X509_verify(c, e); X509_check_private_key(c, e);
            use_key(PKey(X509_get_pubkey(c)));
        }
    }
    ERR_clear_error(); checked(); label(ok ? "still usable" : "refused");
}
