// P28: what the engine offers, what it refuses and how it says so
#include "dk.h"
#include "mut.h"
#include <openssl/x509.h>
using namespace dk;

static int nid_le() { return OBJ_txt2nid("dstu4145le"); }
static int nid_be() { return OBJ_txt2nid("dstu4145be"); }
static int nid_md() { return OBJ_txt2nid("dstu34311"); }
static int nid_ci() { return OBJ_txt2nid("dstu28147-cfb"); }

// a number of an algorithm: near the engine's own, a well-known one, or anywhere
static int gen_nid(Src& s)
{
    int own[] = {nid_md(), nid_ci(), nid_le(), nid_be()};
    switch (s.below(5))
    {
        case 0: return own[s.below(4)];
        case 1: return own[s.below(4)] + (int)s.range(0, 20) - 10;
        case 2: { static const char* n[] = {"dstu28147", "dstu28147-ofb", "dstu28147-wrap", "hmacWithDstu34311", "uacurve0", "uacurve9", "SHA256", "SHA1", "AES-128-CFB", "AES-256-CBC", "rsaEncryption", "id-ecPublicKey", "gost89", "gost89-cnt", "md_gost94", "gost2001", "md_gost12_256", "DES-EDE3-CBC", "ED25519", "HMAC", "X25519", "dsaEncryption", "dhKeyAgreement", "MD5"}; int k = OBJ_txt2nid(n[s.below(sizeof n / sizeof *n)]); return k ? k : 1; }
        case 3: return 1 + (int)s.below(1400);
        default: return 1 + (int)(s.bits(4) % 0x7ffffffe);
    }
}
static void expect_list(const int* l, int n, std::vector<int> want, const char* what)
{
    REQUIRE(l, "%s: no list", what);
    std::vector<int> got(l, l + n); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    REQUIRE(got == want, "%s: the engine lists %d algorithms, other than its own", what, n); checked();
}

SCENARIO("P28", offered, 4000, 100000, 0, "a number other than the engine's own was asked for")
{
    ENGINE* e = g_engine;
    ENGINE_DIGESTS_PTR fd = ENGINE_get_digests(e); ENGINE_CIPHERS_PTR fc = ENGINE_get_ciphers(e);
    ENGINE_PKEY_METHS_PTR fp = ENGINE_get_pkey_meths(e); ENGINE_PKEY_ASN1_METHS_PTR fa = ENGINE_get_pkey_asn1_meths(e);
    REQUIRE(fd && fc && fp && fa, "the engine does not answer for its algorithms");
    REQUIRE(!strcmp(ENGINE_get_id(e), "dstu") && *ENGINE_get_name(e), "the engine is called %s", ENGINE_get_id(e));
    const int* l = nullptr; int n;
    n = fd(e, nullptr, &l, 0); expect_list(l, n, {nid_md()}, "digests"); l = nullptr;
    n = fc(e, nullptr, &l, 0); expect_list(l, n, {nid_ci()}, "ciphers"); l = nullptr;
    n = fp(e, nullptr, &l, 0); expect_list(l, n, {nid_le(), nid_be()}, "key methods"); l = nullptr;
    n = fa(e, nullptr, &l, 0); expect_list(l, n, {nid_le(), nid_be()}, "key encodings");

    int count = 1 + (int)s.below(12); bool foreign = false;
    for (int i = 0; i < count; ++i)
    {
        int nid = gen_nid(s); bool key = nid == nid_le() || nid == nid_be();
        bool own = key || nid == nid_md() || nid == nid_ci();
        foreign |= !own; if (i < 4) note("%d ", nid);
        const EVP_MD* md = nullptr; const EVP_CIPHER* ci = nullptr; EVP_PKEY_METHOD* pm = nullptr; EVP_PKEY_ASN1_METHOD* am = nullptr;
        // OpenSSL takes every answer other than 0 for yes
        int r = fd(e, &md, nullptr, nid); REQUIRE((r != 0) == (nid == nid_md()) && (!r || md), "asked for digest %d the engine answers %d", nid, r);
        if (r) REQUIRE(EVP_MD_get_type(md) == nid && EVP_MD_get_size(md) == 32 && EVP_MD_get_block_size(md) == 32, "digest %d has type %d, size %d, block %d", nid, EVP_MD_get_type(md), EVP_MD_get_size(md), EVP_MD_get_block_size(md));
        r = fc(e, &ci, nullptr, nid); REQUIRE((r != 0) == (nid == nid_ci()) && (!r || ci), "asked for cipher %d the engine answers %d", nid, r);
        if (r) REQUIRE(EVP_CIPHER_get_nid(ci) == nid && EVP_CIPHER_get_key_length(ci) == 32 && EVP_CIPHER_get_iv_length(ci) == 8 && EVP_CIPHER_get_block_size(ci) == 1 && EVP_CIPHER_get_mode(ci) == EVP_CIPH_CFB_MODE, "cipher %d has key %d, iv %d, block %d, mode %d", nid, EVP_CIPHER_get_key_length(ci), EVP_CIPHER_get_iv_length(ci), EVP_CIPHER_get_block_size(ci), EVP_CIPHER_get_mode(ci));
        r = fp(e, &pm, nullptr, nid); REQUIRE((r != 0) == key && (!r || pm), "asked for key methods %d the engine answers %d", nid, r);
        if (r) { int id = 0, fl = 0; EVP_PKEY_meth_get0_info(&id, &fl, pm); REQUIRE(id == nid, "the methods of %d are those of %d", nid, id); }
        r = fa(e, &am, nullptr, nid); REQUIRE((r != 0) == key && (!r || am), "asked for key encodings %d the engine answers %d", nid, r);
        if (r) { int id = 0; EVP_PKEY_asn1_get0_info(&id, nullptr, nullptr, nullptr, nullptr, am); REQUIRE(id == nid, "the encodings of %d are those of %d", nid, id); }
        checked(4);
        // OpenSSL's tables of which engine serves what
        { ENGINE* g = ENGINE_get_digest_engine(nid); bool is = g == e; if (g) ENGINE_finish(g); REQUIRE(is == (nid == nid_md()), "digest %d is%s served by the engine", nid, is ? "" : " not"); }
        { ENGINE* g = ENGINE_get_cipher_engine(nid); bool is = g == e; if (g) ENGINE_finish(g); REQUIRE(is == (nid == nid_ci()), "cipher %d is%s served by the engine", nid, is ? "" : " not"); }
        { ENGINE* g = ENGINE_get_pkey_meth_engine(nid); bool is = g == e; if (g) ENGINE_finish(g); REQUIRE(is == key, "key type %d is%s served by the engine", nid, is ? "" : " not"); }
        { ENGINE* g = ENGINE_get_pkey_asn1_meth_engine(nid); bool is = g == e; if (g) ENGINE_finish(g); REQUIRE(is == key, "encodings of %d are%s served by the engine", nid, is ? "" : " not"); }
        checked(4);
        ERR_clear_error();
    }
    // names
    for (const char* nm : {OBJ_nid2sn(nid_md()), OBJ_nid2ln(nid_md())}) { const EVP_MD* m = EVP_get_digestbyname(nm); REQUIRE(m && EVP_MD_get_type(m) == nid_md(), "no digest called \"%s\"", nm); }
    for (const char* nm : {OBJ_nid2sn(nid_ci()), OBJ_nid2ln(nid_ci())}) { const EVP_CIPHER* m = EVP_get_cipherbyname(nm); REQUIRE(m && EVP_CIPHER_get_nid(m) == nid_ci(), "no cipher called \"%s\"", nm); }
    for (int id : {nid_le(), nid_be()})
    {
        // a key type is found by its name, in any case
        ENGINE* g = nullptr; std::string nm = OBJ_nid2sn(id); if (s.flip()) for (auto& ch : nm) ch = (char)toupper(ch);
        const EVP_PKEY_ASN1_METHOD* am = EVP_PKEY_asn1_find_str(&g, nm.c_str(), -1);
        int got = 0; if (am) EVP_PKEY_asn1_get0_info(&got, nullptr, nullptr, nullptr, nullptr, am); if (g) ENGINE_finish(g);
        REQUIRE(am && got == id, "no key type called %s", nm.c_str());
        RefKey k; k.c = &named((int)s.below(10)); k.le = id == nid_le(); set_secret(k, gen_secret(s, *k.c)); PKey p = eng_pub(k); int dn = 0;
        REQUIRE(EVP_PKEY_get_default_digest_nid(p, &dn) > 0 && dn == nid_md(), "the digest of a DSTU key is %d", dn);
        REQUIRE(EVP_PKEY_get_id(p) == id && EVP_PKEY_get_base_id(p) == id, "a %s key has type %d", OBJ_nid2sn(id), EVP_PKEY_get_id(p));
        checked(3);
    }
    { int c2 = 0, m2 = 0; EVP_PBE_KEYGEN* kg = nullptr; REQUIRE(EVP_PBE_find(EVP_PBE_TYPE_PRF, OBJ_txt2nid("hmacWithDstu34311"), &c2, &m2, &kg) == 1 && m2 == nid_md(), "no PRF over the engine's digest"); checked(); }
    // engine commands it does not have
    ERR_clear_error();
    { static const char* n[] = {"SO_PATH", "LOAD", "SBOX", "sbox", "curve", "", "PIN", "DEFAULT"}; const char* nm = n[s.below(8)]; int num = (int)s.range(ENGINE_CMD_BASE, ENGINE_CMD_BASE + 30);
      char arg[8] = "1";
      REQUIRE(ENGINE_ctrl_cmd_string(e, nm, arg, 0) <= 0 && ENGINE_ctrl(e, num, 1, arg, nullptr) <= 0, "the engine executes command %s/%d", nm, num); checked(); ERR_clear_error(); }
    // algorithms of others are still OpenSSL's
    {
        Bytes d = s.blob(s.below(200)); static const char* ds[] = {"SHA256", "SHA1", "MD5", "SHA512"}; const char* dn = ds[s.below(4)];
        Bytes a(64), b(64); unsigned an = 0, bn = 0; EVP_MD* f = EVP_MD_fetch(nullptr, dn, nullptr);
        REQUIRE(f && EVP_Digest(d.data(), d.size(), a.data(), &an, f, nullptr) == 1 && EVP_Digest(d.data(), d.size(), b.data(), &bn, EVP_get_digestbyname(dn), nullptr) == 1, "%s fails: %s", dn, err_text().c_str());
        EVP_MD_free(f); REQUIRE(an == bn && a == b, "%s gives something else while the engine is loaded", dn); checked();
    }
    if (foreign) { nontrivial(); label("foreign algorithm"); }
}

// ------------------------------------------------------------------ controls
struct Scratch { alignas(16) uint8_t b[512]; uint8_t fill; explicit Scratch(uint8_t f) : fill(f) { memset(b, f, sizeof b); } bool same() const { for (auto x : b) if (x != fill) return false; return true; } };
static int gen_cmd(Src& s, std::vector<int> known, int around)
{
    for (int i = 0; i < 64; ++i)
    {
        int c = s.below(3) == 0 ? around + (int)s.range(0, 8) - 3 : s.flip() ? (int)s.below(64) : (int)(s.bits(4) & 0x7fffffff);
        if (std::find(known.begin(), known.end(), c) == known.end()) return c;
    }
    throw Discard();
}
static int gen_bad_size(Src& s) { int n = s.below(3) == 0 ? (int)s.bits(4) : (int)s.below(200); return n == 64 ? 63 : n; }

SCENARIO("P28", refused_controls, 24000, 500000, FUZZABLE, "a control was refused before the result")
{
    Scratch sc((uint8_t)s.byte()); int tries = 1 + (int)s.below(4);
    // EVP_CTRL_INIT, _RAND_KEY, _COPY, _GET_IVLEN may be given a meaning
    auto storm_cipher = [&](EVP_CIPHER_CTX* c)
    {
        for (int i = 0; i < tries; ++i)
        {
            int cmd, p1 = (int)s.bits(2); void* p2 = s.flip() ? sc.b : nullptr;
            if (s.below(4) == 0) { cmd = CTRL_SBOX_MD; if (s.flip()) { p1 = 64; p2 = nullptr; } else p1 = gen_bad_size(s); }
            else cmd = gen_cmd(s, {0, 6, 7, 8, 0x25, CTRL_SBOX_MD}, CTRL_SBOX_MD);
            int r = EVP_CIPHER_CTX_ctrl(c, cmd, p1, p2);
            note("c%x/%d ", cmd, p1); REQUIRE(r <= 0, "the cipher answers %d to control %d (%d, %s)", r, cmd, p1, p2 ? "data" : "null");
            checked(); nontrivial();
        }
        if (s.below(3) == 0) { int kl = (int)s.below(70); if (kl != 32) { REQUIRE(EVP_CIPHER_CTX_set_key_length(c, kl) <= 0, "a key of %d bytes is accepted", kl); label("key length"); checked(); } }
        ERR_clear_error();
    };
    auto storm_md = [&](EVP_MD_CTX* c)
    {
        for (int i = 0; i < tries; ++i)
        {
            int cmd, p1 = (int)s.bits(2); void* p2 = s.flip() ? sc.b : nullptr;
            if (s.below(4) == 0) { cmd = CTRL_SBOX_MD; if (s.flip()) { p1 = 64; p2 = nullptr; } else p1 = gen_bad_size(s); }
            else cmd = gen_cmd(s, {CTRL_SBOX_MD}, CTRL_SBOX_MD);
            int r = EVP_MD_CTX_ctrl(c, cmd, p1, p2);
            note("d%x/%d ", cmd, p1); REQUIRE(r <= 0, "the digest answers %d to control %d (%d, %s)", r, cmd, p1, p2 ? "data" : "null");
            checked(); nontrivial();
        }
        ERR_clear_error();
    };
    auto storm_key = [&](EVP_PKEY_CTX* c, bool gen)
    {
        for (int i = 0; i < tries; ++i)
        {
            int how = (int)s.below(5), r;
            if (how == 0)
            {
                static const char* n[] = {"", "curv", "curves", "Curve", "CURVE", "sbox ", " sbox", "Sbox", "ec_paramgen_curve", "digest", "dukm", "key", "hexkey"};
                static const char* v[] = {"uacurve0", "uacurve6", "", "1", "A9D6EB45F13C708280C4967B231F5EADF658EBA4C037291D38D96BF025CA4E17F8E9720DC615B43A28975F0BC1DEA36438B5642CE0F23B2E2F36A3E2B5F0E8E3"};
                const char* a = n[s.below(13)]; const char* b = v[s.below(5)];
                if (!strcmp(a, "digest")) continue;                       // OpenSSL's own
                r = EVP_PKEY_CTX_ctrl_str(c, a, b); note("k\"%s\" ", a);
                REQUIRE(r <= 0, "a key context answers %d to \"%s\" = \"%s\"", r, a, b); label("named control");
            }
            else
            {
                int cmd, p1 = (int)s.bits(2); void* p2 = s.flip() ? sc.b : nullptr;
                if (how == 1) { cmd = CTRL_SBOX_PKEY; if (s.flip()) { p1 = 64; p2 = nullptr; } else p1 = gen_bad_size(s); }
                else if (how == 2) { cmd = CTRL_CURVE_PKEY; p2 = nullptr; }
                else cmd = gen_cmd(s, {EVP_PKEY_CTRL_MD, EVP_PKEY_CTRL_GET_MD, EVP_PKEY_CTRL_PKCS7_ENCRYPT, EVP_PKEY_CTRL_PKCS7_DECRYPT, EVP_PKEY_CTRL_PKCS7_SIGN, EVP_PKEY_CTRL_DIGESTINIT, EVP_PKEY_CTRL_CMS_SIGN, EVP_PKEY_CTRL_CMS_ENCRYPT, EVP_PKEY_CTRL_CMS_DECRYPT, 14, 15, 16, 17, CTRL_SBOX_PKEY, CTRL_CURVE_PKEY}, CTRL_SBOX_PKEY);
                r = EVP_PKEY_CTX_ctrl(c, -1, -1, cmd, p1, p2);
                note("k%x/%d ", cmd, p1); REQUIRE(r <= 0, "a key context answers %d to control %d (%d, %s)", r, cmd, p1, p2 ? "data" : "null");
            }
            checked(); nontrivial();
        }
        (void)gen; ERR_clear_error();
    };
    switch (s.below(5))
    {
        case 0: case 1: // cipher
        {
            Bytes key = s.noise(32), iv = s.noise(8), d = s.blob(s.len(200)), out(d.size() + 16), table = s.flip() ? gen_table(s) : Bytes(); bool enc = s.flip();
            CipherCtx c(EVP_CIPHER_CTX_new()); int n = 0; size_t cut = s.below(d.size() + 1);
            REQUIRE(EVP_CipherInit_ex(c, CIPHER(), nullptr, key.data(), iv.data(), enc) == 1, "init fails");
            if (!table.empty()) REQUIRE(EVP_CIPHER_CTX_ctrl(c, CTRL_SBOX_MD, 64, table.data()) == 1, "table refused");
            if (s.flip()) storm_cipher(c);
            if (cut) REQUIRE(EVP_CipherUpdate(c, out.data(), &n, d.data(), (int)cut) == 1 && n == (int)cut, "update fails");
            storm_cipher(c);
            if (cut < d.size()) REQUIRE(EVP_CipherUpdate(c, out.data() + cut, &n, d.data() + cut, (int)(d.size() - cut)) == 1, "update fails after a refused control");
            out.resize(d.size()); REQUIRE(out == ref::cfb(table.empty() ? ref::dflt() : ref::unpack(table.data()), key.data(), iv.data(), d, enc), "a refused control changes the text"); checked(); label("cipher"); break;
        }
        case 2: case 3: // digest
        {
            Bytes d = s.blob(s.len(200)), out(32), table = s.flip() ? gen_table(s) : Bytes(); unsigned n = 0; size_t cut = s.below(d.size() + 1);
            MdCtx c(EVP_MD_CTX_new()); REQUIRE(EVP_DigestInit_ex(c, MD(), nullptr) == 1, "init fails");
            if (!table.empty()) REQUIRE(EVP_MD_CTX_ctrl(c, CTRL_SBOX_MD, 64, table.data()) == 1, "table refused");
            if (s.flip()) storm_md(c);
            REQUIRE(EVP_DigestUpdate(c, d.data(), cut) == 1, "update fails"); storm_md(c);
            REQUIRE(EVP_DigestUpdate(c, d.data() + cut, d.size() - cut) == 1 && EVP_DigestFinal_ex(c, out.data(), &n) == 1, "hashing fails after a refused control");
            REQUIRE(out == ref::hash(table.empty() ? ref::dflt() : ref::unpack(table.data()), d), "a refused control changes the digest"); checked(); label("digest"); break;
        }
        default:
        {
            if (s.flip()) // generation
            {
                bool le = s.flip(); const Curve* cv = s.flip() ? &named((int)s.below(4)) : nullptr; Bytes table = s.flip() ? gen_table(s) : Bytes();
                PKeyCtx g(EVP_PKEY_CTX_new_id(le ? nid_le() : nid_be(), g_engine)); REQUIRE(g && EVP_PKEY_keygen_init(g) == 1, "no generation context");
                if (cv) REQUIRE(EVP_PKEY_CTX_ctrl(g, -1, -1, CTRL_CURVE_PKEY, 0, cv->grp) == 1, "curve refused");
                if (!table.empty()) REQUIRE(EVP_PKEY_CTX_ctrl(g, -1, -1, CTRL_SBOX_PKEY, 64, table.data()) == 1, "table refused");
                storm_key(g, true); EVP_PKEY* o = nullptr; REQUIRE(EVP_PKEY_keygen(g, &o) == 1, "generation fails after a refused control: %s", err_text().c_str()); PKey k(o);
                bool ok; Bytes got = out_spki(k, &ok); REQUIRE(ok, "the key has no encoding"); std::vector<mut::T> t; REQUIRE(mut::parse(got, &t) && t.size() == 1 && t[0].kids.size() == 2 && t[0].kids[0].kids.size() == 2, "the encoding is odd");
                // 257 bits is the curve used when none is set
                RefKey w; w.c = cv ? cv : &named(6); w.le = le; w.table = table;
                Bytes pp = mut::encode({t[0].kids[0].kids[1]}), want = params(*w.c, le, canonical_table(table), false);
                REQUIRE(pp == want, "a refused control changes the generated key: parameters %s, expected %s", hex(pp).c_str(), hex(want).c_str()); checked(); label("generation");
            }
            else // signing
            {
                RefKey k = gen_key(s, 1); PKey p = eng_priv(k); Bytes tbs = s.noise(32), sig(400); size_t n = sig.size();
                PKeyCtx c(EVP_PKEY_CTX_new(p, g_engine)); g_rng.reset(s.bits(2)); REQUIRE(c && EVP_PKEY_sign_init(c) == 1, "no signing context");
                if (s.flip()) REQUIRE(EVP_PKEY_CTX_set_signature_md(c, MD()) == 1, "the engine's digest refused for signing");
                // another digest
                { static const char* ds[] = {"SHA256", "SHA1", "MD5", "SHA512", "SHA3-256", "SHA512-256", "SM3"}; const EVP_MD* f = EVP_get_digestbyname(ds[s.below(7)]); if (f) { REQUIRE(EVP_PKEY_CTX_set_signature_md(c, f) <= 0, "%s is accepted for a DSTU signature", EVP_MD_get0_name(f)); checked(); } }
                storm_key(c, false);
                REQUIRE(EVP_PKEY_sign(c, sig.data(), &n, tbs.data(), tbs.size()) == 1, "signing fails after a refused control: %s", err_text().c_str());
                sig.resize(n); REQUIRE(verify_bytes(k, tbs, sig), "the signature made after a refused control is wrong");
                REQUIRE(EVP_PKEY_verify_init(c) == 1, "no verification context"); storm_key(c, false); REQUIRE(EVP_PKEY_verify(c, sig.data(), sig.size(), tbs.data(), tbs.size()) == 1, "the signature is not accepted after a refused control"); checked(2); label("signing");
            }
        }
    }
    REQUIRE(sc.same(), "a refused control writes to the caller's data"); ERR_clear_error();
}

// ------------------------------------------------------------------ errors
// what the engine's library says about the last refusal; fails when it says nothing
static void require_own_error(const char* what)
{
    bool own = false; unsigned long c; std::string seen;
    while ((c = ERR_get_error()))
    {
        const char* l = ERR_lib_error_string(c); const char* r = ERR_reason_error_string(c);
        seen += std::string(l ? l : "?") + "/" + (r ? r : "?") + " ";
        if (l && !strcmp(l, "dstu")) { own = true; REQUIRE(r && *r, "%s: the engine's error %lx has no text", what, c); }
    }
    REQUIRE(own, "%s leaves no error of the library \"dstu\" (%s)", what, seen.c_str()); checked(); nontrivial();
}
SCENARIO("P28", explained, 6000, 150000, 0, "a refusal left an error of the engine's library")
{
    ERR_clear_error();
    RefKey k = gen_key(s, 0);
    bool priv = s.flip(); Bytes enc = priv ? pkcs8(k) : spki(k);
    std::vector<mut::T> t; REQUIRE(mut::parse(enc, &t) && t.size() == 1, "the model's encoding does not parse");
    mut::T& alg = priv ? t[0].kids[1] : t[0].kids[0];
    switch (s.below(5))
    {
        case 0: // no parameters, or something that is no sequence
        {
            switch (s.below(3)) { case 0: alg.kids[1] = mut::T{5, Bytes(), {}}; break; case 1: alg.kids.pop_back(); break; default: alg.kids[1] = mut::T{4, s.noise(1 + s.below(40)), {}}; }
            Bytes bad = mut::encode(t); note("%s without parameters", priv ? "PKCS#8" : "SPKI");
            // OpenSSL drops the errors of reading a public key
            const uint8_t* q = bad.data(); PKey p; ERR_clear_error();
            if (priv) { P8 i(d2i_PKCS8_PRIV_KEY_INFO(nullptr, &q, (long)bad.size())); if (!i) throw Discard(); ERR_clear_error(); p.reset(EVP_PKCS82PKEY(i)); }
            else p.reset(d2i_PUBKEY(nullptr, &q, (long)bad.size()));
            REQUIRE(!p, "a key without parameters is read"); label("no parameters"); checked();
            if (priv) require_own_error("a private key without parameters"); break;
        }
        case 1: // parameters that are no parameters
        {
            int how = (int)s.below(4); mut::T seq{0x30, Bytes(), {}};
            if (how == 0) {} else if (how == 1) { seq.kids.push_back(mut::T{2, Bytes{1}, {}}); } else if (how == 2) { seq.kids.push_back(mut::T{6, Bytes{0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7}, {}}); }
            else { Bytes pr = params(*k.c, k.le, k.table, true); pr.resize(pr.size() / 2); seq.kids.push_back(mut::T{4, pr, {}}); }
            alg.kids[1] = seq; Bytes bad = priv ? mut::encode(t) : mut::encode({seq}); const uint8_t* q = bad.data(); PKey p; note("%s parameters of kind %d", priv ? "PKCS#8" : "bare", how);
            if (priv) { P8 i(d2i_PKCS8_PRIV_KEY_INFO(nullptr, &q, (long)bad.size())); if (!i) throw Discard(); ERR_clear_error(); p.reset(EVP_PKCS82PKEY(i)); }
            else { ERR_clear_error(); p.reset(d2i_KeyParams(k.le ? nid_le() : nid_be(), nullptr, &q, (long)bad.size())); }
            REQUIRE(!p, "odd parameters are read"); label("odd parameters"); require_own_error("reading parameters that are none"); break;
        }
        case 2: // a point that is none
        {
            Bytes x = s.noise(k.c->fb); bool any = false; 
            for (int i = 0; i < 20 && !any; ++i) { x = s.noise(k.c->fb); x[0] &= (uint8_t)((1u << ((k.c->m - 1) % 8)) | ((1u << ((k.c->m - 1) % 8)) - 1)); Own<EC_POINT, EC_POINT_free> o(EC_POINT_new(k.c->grp)); any = !expand(*k.c, x, o); }
            if (!any) throw Discard();
            RefKey c2 = clone(k); Bytes e2 = spki(c2); std::vector<mut::T> t2; mut::parse(e2, &t2);
            Bytes v = k.le ? rev(x) : x; mut::T oct{4, v, {}}; Bytes in = mut::encode({oct}); t2[0].kids[1].kids.clear(); t2[0].kids[1].val = Bytes{0}; t2[0].kids[1].val.insert(t2[0].kids[1].val.end(), in.begin(), in.end());
            Bytes bad = mut::encode(t2); const uint8_t* q = bad.data(); ERR_clear_error(); PKey p(d2i_PUBKEY(nullptr, &q, (long)bad.size()));
            note("%s: x %s", k.c->name.c_str(), hex(v).c_str()); REQUIRE(!p, "a point that is on no curve is read"); label("no point"); checked(); break;
        }
        case 3: // another digest
        {
            PKey p = eng_priv(k); MdCtx c(EVP_MD_CTX_new()); ERR_clear_error(); static const char* ds[] = {"SHA256", "SHA1", "SHA512", "MD5"}; const char* dn = ds[s.below(4)]; bool sg = s.flip(); note("%s", dn);
            const EVP_MD* f = EVP_get_digestbyname(dn);
            int r = sg ? EVP_DigestSignInit(c, nullptr, f, g_engine, p) : EVP_DigestVerifyInit(c, nullptr, f, g_engine, p);
            REQUIRE(r <= 0, "%s is accepted for a DSTU signature", dn); label("digest"); require_own_error("another digest for a DSTU key"); break;
        }
        default: // the private half of a public key
        {
            PKey p = eng_pub(k); ERR_clear_error(); P8 i(EVP_PKEY2PKCS8(p)); REQUIRE(!i, "a public key has a private encoding"); label("no secret"); require_own_error("the private encoding of a public key");
        }
    }
}

// ------------------------------------------------------------------ curves the standard does not have
static Bytes printed_point(EVP_PKEY* k)
{
    Bio b(BIO_new(BIO_s_mem())); if (EVP_PKEY_print_public(b, k, 0, nullptr) != 1) return Bytes();
    char* p; long n = BIO_get_mem_data(b, &p); std::string t(p, p + n); size_t at = t.find("pub:"); if (at == std::string::npos) return Bytes();
    Bytes r; at += 4;
    while (at < t.size()) { while (at < t.size() && (t[at] == ' ' || t[at] == '\n' || t[at] == ':')) ++at; if (at + 1 < t.size() && isxdigit((uint8_t)t[at]) && isxdigit((uint8_t)t[at + 1]) && (at + 2 >= t.size() || t[at + 2] == ':' || t[at + 2] == '\n')) { r.push_back((uint8_t)strtoul(t.substr(at, 2).c_str(), nullptr, 16)); at += 2; } else break; }
    return r;
}
// the inverse of a modulo an arbitrary polynomial over GF(2); false: there is none
static bool gf2_inv(BIGNUM* out, const BIGNUM* a, const BIGNUM* p)
{
    Bn u(BN_dup(a)), v(BN_dup(p)), g(BN_new()), h(BN_new()), t(BN_new()); BN_one(g); BN_zero(h);
    while (BN_num_bits(u) >= BN_num_bits(p)) { BN_lshift(t, p, BN_num_bits(u) - BN_num_bits(p)); BN_GF2m_add(u, u, t); }
    while (!BN_is_one(u))
    {
        if (BN_is_zero(u)) return false;
        int j = BN_num_bits(u) - BN_num_bits(v);
        if (j < 0) { BN_swap(u, v); BN_swap(g, h); j = -j; }
        BN_lshift(t, v, j); BN_GF2m_add(u, u, t); BN_lshift(t, h, j); BN_GF2m_add(g, g, t);
    }
    while (BN_num_bits(g) >= BN_num_bits(p)) { BN_lshift(t, p, BN_num_bits(g) - BN_num_bits(p)); BN_GF2m_add(g, g, t); }
    return BN_copy(out, g) != nullptr;
}
SCENARIO("P28", prime_fields, 1200, 20000, 0, "a key on a prime-field curve was met")
{
    static const int nids[] = {NID_X9_62_prime256v1, NID_secp384r1, NID_secp521r1, NID_secp256k1, NID_X9_62_prime192v1, NID_secp224r1, NID_brainpoolP256r1, NID_brainpoolP384r1};
    int nid = nids[s.below(8)]; bool le = s.flip(); Group g(EC_GROUP_new_by_curve_name(nid)); if (!g) throw Discard();
    note("%s %s", OBJ_nid2sn(nid), le ? "le" : "be");
    PKeyCtx c(EVP_PKEY_CTX_new_id(le ? nid_le() : nid_be(), g_engine)); REQUIRE(c && EVP_PKEY_keygen_init(c) == 1, "no generation context");
    if (EVP_PKEY_CTX_ctrl(c, -1, -1, CTRL_CURVE_PKEY, 0, g.get()) <= 0) { label("curve refused"); nontrivial(); checked(); ERR_clear_error(); return; }
    if (s.flip()) { Bytes tb = gen_table(s); REQUIRE(EVP_PKEY_CTX_ctrl(c, -1, -1, CTRL_SBOX_PKEY, 64, tb.data()) == 1, "table refused"); }
    EVP_PKEY* o = nullptr; int r = EVP_PKEY_keygen(c, &o); PKey k(o);
    nontrivial();
    if (r <= 0) { label("generation refused"); checked(); ERR_clear_error(); return; }
    ERR_clear_error();
    Bytes tbs = s.noise(s.flip() ? 32 : s.below(70)), sig(600); size_t n = sig.size();
    PKeyCtx sc(EVP_PKEY_CTX_new(k, g_engine));
    if (sc && EVP_PKEY_sign_init(sc) == 1)
    {
        ERR_clear_error();
        REQUIRE(EVP_PKEY_sign(sc, sig.data(), &n, tbs.data(), tbs.size()) <= 0, "a key over a prime field signs (%s)", OBJ_nid2sn(nid)); require_own_error("signing over a prime field");
    }
    int nb = (EC_GROUP_order_bits(g) + 7) / 8;
    // arbitrary signatures, and one that the equations would accept when calculated as if the field were binary
    Bytes q = printed_point(k);
    if (sc && EVP_PKEY_verify_init(sc) == 1)
    {
        Bytes w = s.noise(2 * nb); if (w[0] == 4) w[0] = 5;   // no DER
        ERR_clear_error(); REQUIRE(EVP_PKEY_verify(sc, w.data(), w.size(), tbs.data(), tbs.size()) <= 0, "an arbitrary signature is accepted over a prime field"); require_own_error("verifying over a prime field"); checked();
        BnCtx bc(BN_CTX_new()); Bn p(BN_new()), N(BN_new()), S(BN_new()), R(BN_new()), X(BN_new()), H(BN_new()); Point Q(EC_POINT_new(g)), T(EC_POINT_new(g));
        if (!q.empty() && EC_POINT_oct2point(g, Q, q.data(), q.size(), bc) == 1)
        {
            EC_GROUP_get_curve(g, p, nullptr, nullptr, bc); EC_GROUP_get_order(g, N, bc);
            bool ok = false;
            for (int i = 0; i < 40 && !ok; ++i)
            {
                Bytes a = s.noise(nb - 1), b = s.noise(std::min(nb - 1, 31)); BN_bin2bn(a.data(), (int)a.size(), S); BN_bin2bn(b.data(), (int)b.size(), R); if (BN_is_zero(S) || BN_is_zero(R)) continue;
                EC_POINT_mul(g, T, S, Q, R, bc); if (EC_POINT_is_at_infinity(g, T) || EC_POINT_get_affine_coordinates(g, T, X, nullptr, bc) != 1) continue;
                ok = gf2_inv(H, X, p) && BN_GF2m_mod_mul(H, H, R, p, bc) == 1 && BN_num_bits(H) <= 512;
            }
            ERR_clear_error();
            if (ok)
            {
                Bytes h = bn2b(H, 64), raw = bn2b(S, nb), rr = bn2b(R, nb); raw.insert(raw.end(), rr.begin(), rr.end()); if (le) std::reverse(raw.begin(), raw.end());
                for (int turn = 0; turn < 2; ++turn)
                {
                    REQUIRE(EVP_PKEY_verify(sc, raw.data(), raw.size(), h.data(), h.size()) <= 0, "a signature calculated over a prime field as if it were binary is accepted (%s)", OBJ_nid2sn(nid)); checked();
                    std::reverse(h.begin(), h.end());
                }
                label("equation forged");
            }
        }
    }
    ERR_clear_error();
    unsigned char* der = nullptr; int dn = i2d_PUBKEY(k, &der); OPENSSL_free(der);
    REQUIRE(dn <= 0, "a public key over a prime field gets an encoding"); checked();
    { P8 i(EVP_PKEY2PKCS8(k)); REQUIRE(!i, "a private key over a prime field gets an encoding"); checked(); }
    ERR_clear_error();
    // harmless uses
    { PKey k2(EVP_PKEY_new()); (void)EVP_PKEY_copy_parameters(k2, k); (void)EVP_PKEY_eq(k, k2); (void)EVP_PKEY_eq(k2, k); (void)EVP_PKEY_parameters_eq(k, k2); (void)EVP_PKEY_get_bits(k); (void)EVP_PKEY_get_size(k);
      Bio b(BIO_new(BIO_s_mem())); (void)EVP_PKEY_print_private(b, k, 0, nullptr); (void)EVP_PKEY_print_params(b, k, 0, nullptr); checked(); }
    RefKey bk = gen_key(s, 0); PKey bp = eng_pub(bk); REQUIRE(EVP_PKEY_eq(k, bp) != 1 && EVP_PKEY_eq(bp, k) != 1, "a key over a prime field equals one over a binary field"); checked();
    ERR_clear_error();
}
