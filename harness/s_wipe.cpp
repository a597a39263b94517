// P32: secrets do not stay in memory that is given back. OpenSSL's allocator (the engine and the container library use no other)
// shows every block as it is released; no piece of a secret may be in it.
#include "cont.h"
#include <openssl/hmac.h>
#include <openssl/pkcs12.h>
#include <openssl/pem.h>
#include <string.h>
#include <set>
using namespace dk;

namespace
{
struct Secret { std::string name; Bytes b; };
const size_t W = 12;
// pieces by which a secret is recognised, either way round; pieces that could be anything else do not count
std::vector<Bytes> pieces(const Bytes& x)
{
    std::vector<Bytes> r; if (x.size() < W) return r;
    for (int way = 0; way < 2; ++way)
    {
        Bytes b = way ? rev(x) : x; size_t last = b.size() - W;
        for (size_t o : std::set<size_t>{0, last, last / 2, last / 4, 3 * last / 4})
        {
            Bytes q(b.begin() + o, b.begin() + o + W);
            if (std::set<uint8_t>(q.begin(), q.end()).size() >= 7) r.push_back(q);
        }
    }
    return r;
}
// keeps what is released; with secrets given, only blocks that hold one of them
struct Watch
{
    explicit Watch(const std::vector<Secret>& v = {})
    {
        g_released = Released();
        for (auto& x : v) for (auto& q : pieces(x.b)) g_released.only.push_back(q);
        if (!v.empty() && g_released.only.empty()) g_released.only.push_back(Bytes(W, 0x5c)); // nothing to look for
        g_released.blocks.reserve(4096); g_released.on = true;
    }
    ~Watch() { g_released = Released(); }
    void stop() { g_released.on = false; }
};
bool judge(Watch& w, const std::vector<Secret>& v, const char* during)   // true: there was something to look for
{
    w.stop(); bool any = false;
    for (auto& x : v)
    {
        auto ps = pieces(x.b); any |= !ps.empty();
        for (auto& q : ps) for (auto& k : g_released.blocks)
            if (memmem(k.data(), k.size(), q.data(), q.size())) FAIL("%s: %s stays behind in a released block of %zu bytes: %s is in %s", during, x.name.c_str(), k.size(), hex(q).c_str(), hex(k, 200).c_str());
        checked();
    }
    label(during);
    return any;
}
// a key whose number looks like no other value around (one next to the order would be found in the order)
RefKey odd_key(Src& s)
{
    RefKey k = gen_key(s, 1); if (k.c->toy) return k;
    Bytes d = s.noise(k.c->nb); d[0] = 0; d[1] &= 0x3f; if (s.chance(60)) for (unsigned i = 0, z = (unsigned)s.below(4); i < z; ++i) d[i] = 0;
    d.back() |= 1; set_secret(k, d); return k;
}
Secret secret_of(const RefKey& k) { size_t z = 0; while (z < k.d.size() && !k.d[z]) ++z; return {"the secret number", Bytes(k.d.begin() + z, k.d.end())}; }
void load_save(Src& s)
{
    RefKey k = odd_key(s); std::vector<Secret> v = {secret_of(k)};
    Bytes der = pkcs8(k, s.flip()); const uint8_t* q = der.data(); int what = (int)s.below(5), bad = s.chance(60) ? 1 + (int)s.below(2) : 0; Bytes pw = s.noise(12 + s.below(20));
    if (bad == 1) der[s.below(der.size())] ^= uint8_t(1 + s.below(255)); else if (bad) { Bytes m = mut::der_mutate(s, der, &v[0].name); v[0].name = "the secret number"; 
        // the number must not have been moved to where public values stand
        bool moved = false; for (auto& x : pieces(secret_of(k).b)) { auto from_end = [&](const Bytes& h) -> long { const uint8_t* f = (const uint8_t*)memmem(h.data(), h.size(), x.data(), x.size()); return f ? long(h.data() + h.size() - f) : -1; }; long f = from_end(m); moved |= f >= 0 && f != from_end(der); }
        if (moved) bad = 0; else der = m;
    }
    q = der.data();
    if (what == 3) v.push_back({"the password", pw});
    g_rng.reset(s.bits(3));
    Watch w(v);
    {
        P8 p(d2i_PKCS8_PRIV_KEY_INFO(nullptr, &q, (long)der.size())); PKey e(p ? EVP_PKCS82PKEY(p) : nullptr); p.reset();
        REQUIRE(e || bad, "a private key is refused: %s", err_text().c_str());
        if (e && !(EVP_PKEY_id(e) == OBJ_txt2nid("1.2.804.2.1.1.1.1.3.1.1") || EVP_PKEY_id(e) == OBJ_txt2nid("1.2.804.2.1.1.1.1.3.1.1.1.1"))) e.reset();
        if (e && what >= 2)
        {
            P8 o(EVP_PKEY2PKCS8(e)); REQUIRE(o || bad, "a private key cannot be saved");
            if (o && what == 3)
            {
                Own<X509_SIG, X509_SIG_free> x(PKCS8_encrypt(-1, CIPHER(), (const char*)pw.data(), (int)pw.size(), nullptr, 0, 1, o)); REQUIRE(x || bad, "a key cannot be protected: %s", err_text().c_str());
                if (x) { P8 b(PKCS8_decrypt(x, (const char*)pw.data(), (int)pw.size())); REQUIRE(b, "a protected key cannot be opened: %s", err_text().c_str()); PKey e2(EVP_PKCS82PKEY(b)); REQUIRE(e2 || bad, "a protected key cannot be loaded"); }
            }
            if (o && what == 4) { int nid = 0; (void)EVP_PKEY_get_default_digest_nid(e, &nid); (void)EVP_PKEY_eq(e, e); PKeyCtx c(EVP_PKEY_CTX_new(e, g_engine)), d(c ? EVP_PKEY_CTX_dup(c) : nullptr); }
        }
    }
    static const char* during[] = {"loading a key", "loading a key", "saving a key", "protecting a key", "comparing keys"};
    if (judge(w, v, during[what]) && !bad) nontrivial();
    if (bad) label("damaged key"); note("%s%s: %s", during[what], bad ? " (damaged)" : "", describe(k).c_str()); ERR_clear_error();
}
void sign_key(Src& s)
{
    RefKey k = odd_key(s); const Curve& c = *k.c; PKey e = eng_priv(k, s.flip()); Bytes tbs = s.noise(1 + s.below(64)), sig(400); size_t n = sig.size(); bool msg = s.flip(), ok; g_rng.reset(s.bits(3));
    // the nonce is a secret as well: it and the signature give the secret number away
    Watch w;
    if (msg) { MdCtx x(EVP_MD_CTX_new()); ok = EVP_DigestSignInit(x, nullptr, MD(), g_engine, e) == 1 && EVP_DigestSignUpdate(x, tbs.data(), tbs.size()) == 1 && EVP_DigestSignFinal(x, sig.data(), &n) == 1; }
    else { PKeyCtx x(EVP_PKEY_CTX_new(e, g_engine)); ok = x && EVP_PKEY_sign_init(x) == 1 && EVP_PKEY_sign(x, sig.data(), &n, tbs.data(), tbs.size()) == 1; }
    e.reset(); w.stop();
    REQUIRE(ok || c.toy, "signing: %s", err_text().c_str()); std::vector<Secret> v = {secret_of(k)};
    if (ok)
    {
        REQUIRE(n >= 2u * (unsigned)c.nb, "a short signature"); Bytes raw(sig.begin() + (n - 2 * c.nb), sig.begin() + n); if (k.le) raw = rev(raw);
        BnCtx ctx(BN_CTX_new()); Bn S(b2bn(Bytes(raw.begin(), raw.begin() + c.nb))), R(b2bn(Bytes(raw.begin() + c.nb, raw.end()))), d(b2bn(k.d)), x(BN_new());
        BN_mod_mul(d, d, R, c.N, ctx); BN_mod_sub(x, S, d, c.N, ctx); v.push_back({"the nonce", bn2b(x, c.nb)}); v.push_back({"secret number times r", bn2b(d, c.nb)});
    }
    if (judge(w, v, msg ? "signing a message" : "signing") && ok) nontrivial();
    note("signing: %s", describe(k).c_str()); ERR_clear_error();
}
void generate(Src& s)
{
    const Curve& c = named((int)s.below(10)); Bytes tab = gen_table(s); bool t = s.flip(); g_rng.reset(s.bits(3)); Bytes d;
    Watch w;
    {
        PKeyCtx x(EVP_PKEY_CTX_new_id(OBJ_txt2nid(s.flip() ? "1.2.804.2.1.1.1.1.3.1.1" : "1.2.804.2.1.1.1.1.3.1.1.1.1"), g_engine)); EVP_PKEY* k = nullptr;
        REQUIRE(x && EVP_PKEY_keygen_init(x) == 1 && EVP_PKEY_CTX_ctrl_str(x, "curve", curve_sn(c.named)) == 1 && (!t || EVP_PKEY_CTX_ctrl(x, -1, -1, CTRL_SBOX_PKEY, 64, tab.data()) == 1) && EVP_PKEY_keygen(x, &k) == 1, "generation: %s", err_text().c_str());
        PKey e(k); g_released.on = false; d = out_pkcs8(e); g_released.on = true;
    }
    w.stop();
    // the secret stands at the end of its encoding
    std::vector<mut::T> v; REQUIRE(mut::parse(d, &v) && v.size() == 1 && v[0].kids.size() >= 3, "a generated key is saved oddly"); const mut::T& o = v[0].kids[2];
    Bytes sec = o.cons && !o.kids.empty() ? o.kids.back().val : o.val; if (sec.size() > 2 && sec[0] == 4) sec.erase(sec.begin(), sec.begin() + 2);
    if (judge(w, {{"the secret number", sec}}, "generating a key")) nontrivial(); note("generating on %s", c.name.c_str());
}
void cipher(Src& s)
{
    Bytes key = s.noise(32), iv = s.noise(8), in = s.blob(s.len(200)), out(in.size() + 16), tab = gen_table(s); bool enc = s.flip(), t = s.flip(), copy = s.flip(), again = s.flip(); int l; g_rng.reset(s.bits(3));
    Bytes key2 = s.noise(32); std::vector<Secret> v = {{"the key", key}, {"the second key", key2}};
    Watch w(v);
    {
        CipherCtx c(EVP_CIPHER_CTX_new());
        REQUIRE(EVP_CipherInit_ex(c, CIPHER(), g_engine, key.data(), iv.data(), enc) == 1 && (!t || EVP_CIPHER_CTX_ctrl(c, CTRL_SBOX_MD, 64, tab.data()) > 0) && EVP_CipherUpdate(c, out.data(), &l, in.data(), (int)in.size()) == 1, "encryption");
        if (copy) { CipherCtx d(EVP_CIPHER_CTX_new()); REQUIRE(EVP_CIPHER_CTX_copy(d, c) == 1 && EVP_CipherUpdate(d, out.data(), &l, in.data(), (int)in.size()) == 1, "a copy"); }
        if (again) REQUIRE(EVP_CipherInit_ex(c, CIPHER(), g_engine, key2.data(), iv.data(), enc) == 1, "another key");
    }
    if (judge(w, v, "encryption")) nontrivial(); note("encryption of %zu bytes%s%s", in.size(), copy ? ", copied" : "", again ? ", another key" : "");
}
void keyed(Src& s)
{
    Bytes key = s.noise(1 + s.len(100)), m = s.blob(s.len(200)); uint8_t o[32]; unsigned n = 0; std::vector<Secret> v = {{"the key", key}};
    Watch w(v);
    { HMAC_CTX* c = HMAC_CTX_new(); bool ok = c && HMAC_Init_ex(c, key.data(), (int)key.size(), MD(), g_engine) == 1 && HMAC_Update(c, m.data(), m.size()) == 1 && HMAC_Final(c, o, &n) == 1; HMAC_CTX_free(c); REQUIRE(ok, "HMAC"); }
    if (judge(w, v, "keyed hashing")) nontrivial(); note("HMAC, key of %zu bytes", key.size());
}
void hashed(Src& s)
{
    Bytes m = s.noise(s.len(200)); uint8_t o[32]; unsigned n = 0; std::vector<Secret> v = {{"the message", m}};
    Watch w(v);
    { MdCtx c(EVP_MD_CTX_new()), d(EVP_MD_CTX_new()); REQUIRE(EVP_DigestInit_ex(c, MD(), g_engine) == 1 && EVP_DigestUpdate(c, m.data(), m.size()) == 1 && EVP_MD_CTX_copy_ex(d, c) == 1 && EVP_DigestFinal_ex(c, o, &n) == 1, "hashing"); }
    if (judge(w, v, "hashing")) nontrivial(); note("hashing %zu bytes", m.size());
}
void container(Src& s)
{
    ct::Container c = ct::gen_any(s, true); bool wrong = s.chance(80); Bytes pw = c.pass, kp = c.keypass; if (wrong) { if (s.flip()) pw.push_back('x'); else kp.push_back('x'); }
    Bytes b = c.bytes; if (s.chance(40)) b[s.below(b.size())] ^= uint8_t(1 + s.below(255));
    std::vector<Secret> v; 
    for (auto& k : c.want.keys) if (k.k && !k.k->c->toy)
    {
        // a number next to the order would be found in the order, and one that the container holds in the clear is no secret
        Secret x = secret_of(*k.k); bool open = false; for (auto& q : pieces(x.b)) open |= memmem(b.data(), b.size(), q.data(), q.size()) || memmem(k.k->c->n.data(), k.k->c->n.size(), q.data(), q.size()) || memmem(rev(k.k->c->n).data(), k.k->c->n.size(), q.data(), q.size());
        if (!open) v.push_back(x);
    }
    v.push_back({"the password", c.pass}); v.push_back({"the key password", c.keypass});
    if (!c.kind) { v.push_back({"the password in UTF-16", c.jstore.utf16be}); v.push_back({"the key password in UTF-16", c.jkey.utf16be}); }
    int r;
    Watch w(v);
    {
        KeyStore* ks = nullptr;
        switch (c.kind)
        {
            case 0: r = KL.parseJKS(b.data(), b.size(), (const char*)pw.data(), pw.size(), (const char*)kp.data(), kp.size(), &ks); break;
            case 1: r = KL.parseKey6(b.data(), b.size(), (const char*)pw.data(), pw.size(), &ks); break;
            default: r = KL.parsePKCS12(b.data(), b.size(), (const char*)pw.data(), pw.size(), &ks);
        }
        if (ks) KL.KeyStoreFree(ks);
    }
    static const char* what[] = {"a JKS store", "a Key-6 container", "a PKCS#12 store"};
    if (judge(w, v, what[c.kind])) nontrivial(); ERR_clear_error(); note("%s: %s", r == 1 ? "read" : "refused", c.desc.c_str());
}
}
SCENARIO("P32", secrets_released, 6000, 200000, 0, "a secret of at least 12 bytes was used")
{
    switch (s.below(8))
    {
        case 0: case 1: load_save(s); break;
        case 2: generate(s); break;
        case 3: cipher(s); break;
        case 4: if (s.flip()) keyed(s); else hashed(s); break;
        case 5: sign_key(s); break;
        default: container(s);
    }
}
