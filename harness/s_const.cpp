// P31: what an operation is given is left alone. Inputs lie in pages that cannot be written, right before a page that cannot be
// read; after every operation each key and store must still be what it was.
#include "cont.h"
#include <openssl/hmac.h>
#include <openssl/pkcs12.h>
#include <openssl/pem.h>
#include <sys/mman.h>
#include <memory>
using namespace dk;

namespace
{
struct Ro                                         // n bytes that can only be read, and nothing after them
{
    uint8_t* base; size_t pages; uint8_t* at; size_t n;
    explicit Ro(const Bytes& b) : n(b.size())
    {
        const size_t P = 4096; pages = (n + P - 1) / P; if (!pages) pages = 1;
        base = (uint8_t*)mmap(nullptr, (pages + 1) * P, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) throw Discard();
        at = base + pages * P - n; if (n) memcpy(at, b.data(), n);
        mprotect(base, pages * P, PROT_READ); mprotect(base + pages * P, P, PROT_NONE);
    }
    Ro(const Ro&) = delete;
    ~Ro() { munmap(base, (pages + 1) * 4096); }
    operator const uint8_t*() const { return at; }
    void* v() const { return (void*)at; }
    const char* c() const { return (const char*)at; }
    int len() const { return (int)n; }
};
struct Held { RefKey k; PKey priv, pub; Bytes p8, spki; };
struct World
{
    std::vector<std::unique_ptr<Held>> keys;
    std::vector<std::unique_ptr<ct::Container>> conts; std::vector<std::unique_ptr<ct::Store>> stores;
    void same(const char* after)
    {
        for (auto& h : keys)
        {
            bool ok = false; Bytes q = out_pkcs8(h->priv, &ok);
            REQUIRE(ok && q == h->p8, "after %s a private key is saved as %s, before as %s (%s)", after, hex(q, 300).c_str(), hex(h->p8, 300).c_str(), describe(h->k).c_str());
            for (EVP_PKEY* e : {h->priv.get(), h->pub.get()})
            {
                q = out_spki(e, &ok);
                REQUIRE(ok && q == h->spki, "after %s a public key is saved as %s, before as %s (%s)", after, hex(q, 300).c_str(), hex(h->spki, 300).c_str(), describe(h->k).c_str());
            }
            checked();
        }
        for (size_t i = 0; i < stores.size(); ++i) { ct::same_store(stores[i]->p, conts[i]->want, after); checked(); }
        ERR_clear_error();
    }
};
void with_digest(Src& s, World& w)
{
    Ro t(gen_table(s)), m(s.blob(s.len(300))); MdCtx c(EVP_MD_CTX_new()); uint8_t o[32], p[32]; unsigned n = 0;
    bool tab = s.flip(); auto cuts = gen_cuts(s, m.n);
    REQUIRE(EVP_DigestInit_ex(c, MD(), g_engine) == 1 && (!tab || EVP_MD_CTX_ctrl(c, CTRL_SBOX_MD, 64, t.v()) > 0), "digest: start");
    size_t at = 0; for (size_t k : cuts) { REQUIRE(EVP_DigestUpdate(c, m + at, k) == 1, "digest: update"); at += k; }
    if (at < m.n) REQUIRE(EVP_DigestUpdate(c, m + at, m.n - at) == 1, "digest: update");
    MdCtx d(EVP_MD_CTX_new()); REQUIRE(EVP_MD_CTX_copy_ex(d, c) == 1 && EVP_DigestFinal_ex(c, o, &n) == 1, "digest: end");
    REQUIRE(EVP_DigestFinal_ex(d, p, &n) == 1 && !memcmp(o, p, 32), "finishing a digest changes the copy made before");
    checked(); (void)w;
}
void with_cipher(Src& s, World&)
{
    Ro t(gen_table(s)), key(s.noise(32)), iv(s.noise(8)), in(s.blob(s.len(400))); CipherCtx c(EVP_CIPHER_CTX_new()); bool enc = s.flip(), tab = s.flip();
    Bytes o(in.n + 16); int l = 0, all = 0;
    REQUIRE(EVP_CipherInit_ex(c, CIPHER(), g_engine, key, iv, enc) == 1 && (!tab || EVP_CIPHER_CTX_ctrl(c, CTRL_SBOX_MD, 64, t.v()) > 0), "cipher: start");
    size_t at = 0; for (size_t k : gen_cuts(s, in.n)) { if (!k) continue; REQUIRE(EVP_CipherUpdate(c, o.data() + all, &l, in + at, (int)k) == 1, "cipher: update"); all += l; at += k; }
    REQUIRE(EVP_CipherFinal_ex(c, o.data() + all, &l) == 1, "cipher: end"); checked();
}
void with_hmac(Src& s, World&)
{
    Ro key(s.blob(1 + s.len(80))), m(s.blob(s.len(200))), salt(s.blob(1 + s.below(30))); uint8_t o[64]; unsigned n = 0;
    if (s.flip()) { REQUIRE(HMAC(MD(), key, key.len(), m, m.n, o, &n) && n == 32, "HMAC"); }
    else REQUIRE(PKCS5_PBKDF2_HMAC(key.c(), key.len(), salt, salt.len(), 1 + (int)s.below(4), MD(), 1 + (int)s.below(60), o) == 1, "PBKDF2");
    checked();
}
void with_signature(Src& s, World& w)
{
    Held& h = *w.keys[s.below(w.keys.size())]; Ro tbs(s.blob(1 + s.below(64)));
    g_rng.reset(s.bits(3));
    Bytes sig(400); size_t n = sig.size();
    { PKeyCtx c(EVP_PKEY_CTX_new(h.priv, g_engine)); bool ok = c && EVP_PKEY_sign_init(c) == 1 && EVP_PKEY_sign(c, sig.data(), &n, tbs, tbs.n) == 1; if (!ok && h.k.c->toy) { label("no signature exists on a small curve"); return; } REQUIRE(ok, "signing: %s (%s)", err_text().c_str(), describe(h.k).c_str()); }
    sig.resize(n); Ro good(sig);
    Bytes bad = sig; if (!s.chance(100)) bad[s.below(bad.size())] ^= uint8_t(1 + s.below(255)); Ro other(s.chance(40) ? s.noise(s.below(150)) : bad);
    for (EVP_PKEY* e : {h.priv.get(), h.pub.get()})
    {
        PKeyCtx c(EVP_PKEY_CTX_new(e, g_engine)); REQUIRE(c && EVP_PKEY_verify_init(c) == 1, "verification: start");
        (void)EVP_PKEY_verify(c, other, other.n, tbs, tbs.n); ERR_clear_error();
        int r = EVP_PKEY_verify(c, good, good.n, tbs, tbs.n);
        REQUIRE(r == 1, "a genuine signature is refused (%d) in read-only memory, after another was looked at: %s", r, describe(h.k).c_str()); checked();
    }
}
void with_message(Src& s, World& w)
{
    Held& h = *w.keys[s.below(w.keys.size())]; Ro m(s.blob(s.len(200)));
    g_rng.reset(s.bits(3)); Bytes sig(400); size_t n = sig.size();
    { MdCtx c(EVP_MD_CTX_new()); REQUIRE(EVP_DigestSignInit(c, nullptr, MD(), g_engine, h.priv) == 1 && EVP_DigestSignUpdate(c, m, m.n) == 1, "signing a message: %s", err_text().c_str());
      bool ok = EVP_DigestSignFinal(c, sig.data(), &n) == 1; if (!ok && h.k.c->toy) { label("no signature exists on a small curve"); return; } REQUIRE(ok, "signing a message: %s (%s)", err_text().c_str(), describe(h.k).c_str()); }
    sig.resize(n); Ro good(sig);
    MdCtx c(EVP_MD_CTX_new());
    REQUIRE(EVP_DigestVerifyInit(c, nullptr, MD(), g_engine, h.pub) == 1 && EVP_DigestVerifyUpdate(c, m, m.n) == 1, "verification of a message: %s", err_text().c_str());
    if (s.flip()) { MdCtx d(EVP_MD_CTX_new()); REQUIRE(EVP_MD_CTX_copy_ex(d, c) == 1 && EVP_DigestVerifyFinal(d, good, good.n) == 1, "a copied verification refuses a genuine signature"); }
    REQUIRE(EVP_DigestVerifyFinal(c, good, good.n) == 1, "a genuine signature of a message is refused: %s", describe(h.k).c_str()); checked();
}
void with_encoding(Src& s, World& w)
{
    Held& h = *w.keys[s.below(w.keys.size())]; bool priv = s.flip();
    Bytes der = priv ? pkcs8(h.k, s.flip()) : spki(h.k, s.flip()); Ro b(der); const uint8_t* q = b;
    PKey k;
    if (priv) { P8 p(d2i_PKCS8_PRIV_KEY_INFO(nullptr, &q, b.len())); REQUIRE(p, "PKCS#8 refused"); for (int i = 1 + (int)s.below(2); i; --i) { k.reset(EVP_PKCS82PKEY(p)); REQUIRE(k, "a private key cannot be made twice of one structure: %s", err_text().c_str()); } }
    else k.reset(d2i_PUBKEY(nullptr, &q, b.len()));
    REQUIRE(k && q == b + b.n, "an encoded key is refused: %s", describe(h.k).c_str());
    REQUIRE(EVP_PKEY_eq(k, h.pub) == 1 && EVP_PKEY_eq(h.priv, k) == 1, "a loaded key differs: %s", describe(h.k).c_str()); checked();
}
void with_looking(Src& s, World& w)
{
    Held &h = *w.keys[s.below(w.keys.size())], &g = *w.keys[s.below(w.keys.size())];
    for (int i = 0, n = 1 + (int)s.below(5); i < n; ++i)
        switch (s.below(8))
        {
            case 0: (void)EVP_PKEY_eq(h.priv, g.pub); (void)EVP_PKEY_parameters_eq(h.pub, g.priv); break;
            case 1: { Bio o(BIO_new(BIO_s_mem())); EVP_PKEY_print_private(o, h.priv, (int)s.below(9), nullptr); EVP_PKEY_print_public(o, h.pub, 0, nullptr); EVP_PKEY_print_params(o, h.pub, 0, nullptr); break; }
            case 2: (void)EVP_PKEY_get_size(h.pub); (void)EVP_PKEY_get_bits(h.priv); (void)EVP_PKEY_get_security_bits(h.priv); (void)EVP_PKEY_missing_parameters(h.pub); break;
            case 3: { int nid = 0; (void)EVP_PKEY_get_default_digest_nid(h.priv, &nid); break; }
            case 4: { PKeyCtx c(EVP_PKEY_CTX_new(h.priv, g_engine)); (void)EVP_PKEY_sign_init(c); PKeyCtx d(EVP_PKEY_CTX_dup(c)); size_t z = 0; Bytes t(32, 1); (void)EVP_PKEY_sign(d ? d : c, nullptr, &z, t.data(), t.size()); break; }
            case 5: { P8 p(EVP_PKEY2PKCS8(h.priv)); Ro pw(s.blob(1 + s.below(20))); g_rng.reset(s.bits(2)); Own<X509_SIG, X509_SIG_free> x(PKCS8_encrypt(-1, CIPHER(), pw.c(), pw.len(), nullptr, 0, 2, p));
                      REQUIRE(x, "a key cannot be protected: %s", err_text().c_str()); P8 b(PKCS8_decrypt(x, pw.c(), pw.len())); REQUIRE(b, "a protected key cannot be opened: %s", err_text().c_str()); break; }
            case 6: { Cert x(X509_new()); (void)X509_set_pubkey(x, h.pub); PKey k(X509_get_pubkey(x)); REQUIRE(k && EVP_PKEY_eq(k, h.pub) == 1, "a certificate holds another key than was put into it"); break; }
            default:
            {
                // a context that generates keys under settings of its own
                PKeyCtx c(EVP_PKEY_CTX_new_id(EVP_PKEY_id(h.priv), g_engine)); Ro name(Bytes({'u', 'a', 'c', 'u', 'r', 'v', 'e', uint8_t('0' + s.below(10)), 0})), tab(gen_table(s)); EVP_PKEY* k = nullptr;
                REQUIRE(c && EVP_PKEY_keygen_init(c) == 1 && EVP_PKEY_CTX_ctrl_str(c, "curve", name.c()) == 1, "generation: settings");
                if (s.flip()) REQUIRE(EVP_PKEY_CTX_ctrl(c, -1, -1, CTRL_SBOX_PKEY, 64, tab.v()) == 1, "generation: table");
                REQUIRE(EVP_PKEY_keygen(c, &k) == 1, "generation"); EVP_PKEY_free(k);
            }
        }
    ERR_clear_error(); checked();
}
void with_container(Src& s, World& w)
{
    std::unique_ptr<ct::Container> c(new ct::Container(ct::gen_any(s, true)));
    Ro b(c->bytes), p(c->pass), k(c->keypass); std::unique_ptr<ct::Store> st(new ct::Store); int r;
    Bytes wrong = c->pass; wrong.push_back('x'); Ro q(wrong);
    for (int round = s.chance(60) ? 0 : 1; round < 2; ++round)
    {
        const Ro& u = round ? p : q;
        switch (c->kind)
        {
            case 0: r = KL.parseJKS(b, b.n, u.c(), u.n, k.c(), k.n, &st->p); break;
            case 1: r = KL.parseKey6(b, b.n, u.c(), u.n, &st->p); break;
            default: r = KL.parsePKCS12(b, b.n, u.c(), u.n, &st->p);
        }
        if (round) REQUIRE(r == 1 && st->p, "a good container in read-only memory is refused: %s", c->desc.c_str());
        else st->reset();
        ERR_clear_error();
    }
    ct::same_store(st->p, c->want, "container in read-only memory"); checked();
    if (w.stores.size() < 3) { w.conts.push_back(std::move(c)); w.stores.push_back(std::move(st)); }
}
void with_random(Src& s, World&)
{
    const RAND_METHOD* m = ENGINE_get_RAND(g_engine); REQUIRE(m, "no generator");
    Ro x(s.blob(1 + s.below(60))); g_seed.active = true; if (m->seed) m->seed(x, x.len()); if (m->add) m->add(x, x.len(), 1.0);
    checked();
}
void with_primitives(Src& s, World&)
{
    typedef uint8_t B;
    auto init = (void (*)(void*, const void*))keylib_sym("gost_init"); auto unpack = (void (*)(const B*, void*))keylib_sym("unpack_sbox"); auto setkey = (void (*)(void*, const B*))keylib_sym("gost_key");
    auto enc = (void (*)(void*, const B*, B*))keylib_sym("gostcrypt"), dec = (void (*)(void*, const B*, B*))keylib_sym("gostdecrypt");
    auto ecb = (void (*)(void*, const B*, B*, int))keylib_sym("gost_enc"), dcb = (void (*)(void*, const B*, B*, int))keylib_sym("gost_dec");
    auto ecf = (void (*)(void*, const B*, const B*, B*, int))keylib_sym("gost_enc_cfb"), dcf = (void (*)(void*, const B*, const B*, B*, int))keylib_sym("gost_dec_cfb");
    auto mac = (int (*)(void*, int, const B*, unsigned, B*))keylib_sym("gost_mac"); auto maciv = (int (*)(void*, int, const B*, const B*, unsigned, B*))keylib_sym("gost_mac_iv");
    auto isdef = (int (*)(const B*))keylib_sym("is_default_sbox"); auto getkey = (void (*)(void*, B*))keylib_sym("gost_get_key");
    if (!init || !unpack || !setkey || !enc || !dec || !ecb || !dcb || !ecf || !dcf || !mac || !maciv || !isdef || !getkey) throw Discard();
    Bytes tb = gen_table(s), kb = s.noise(32); Ro t(tb), k(kb); std::unique_ptr<B[]> c(new B[8192]), sb(new B[1024]), o(new B[400]);
    memset(c.get(), g_fill, 8192); unpack(t, sb.get()); init(c.get(), sb.get()); g_rng.reset(s.bits(2)); setkey(c.get(), k); (void)isdef(t);
    int n = 1 + (int)s.below(20); Ro d(s.noise(8 * n)), iv(s.noise(8)), one(s.noise(8)); ref::Gost g(ref::unpack(tb.data()), kb.data());
    switch (s.below(6))
    {
        case 0: enc(c.get(), one, o.get()); dec(c.get(), one, o.get()); break;
        case 1: ecb(c.get(), d, o.get(), n); break;
        case 2: dcb(c.get(), d, o.get(), n); break;
        case 3: ecf(c.get(), iv, d, o.get(), n); break;
        case 4: dcf(c.get(), iv, d, o.get(), n); break;
        default: if (s.flip()) mac(c.get(), 32, d, 8 * n, o.get()); else maciv(c.get(), 32, iv, d, 8 * n, o.get());
    }
    // the key schedule is an input of the block operations: it must serve the next one as it did the last
    B e[8], w[8], back[32]; enc(c.get(), one, e); g.enc(one, w); REQUIRE(!memcmp(e, w, 8), "an operation changes the key it works with");
    getkey(c.get(), back); REQUIRE(!memcmp(back, kb.data(), 32), "an operation changes the key it works with"); checked();
}
}
SCENARIO("P31", inputs_untouched, 1600, 60000, 0, "three or more different operations shared the keys and stores")
{
    World w; int n = 1 + (int)s.below(3);
    for (int i = 0; i < n; ++i)
    {
        std::unique_ptr<Held> h(new Held); h->k = gen_key(s, 1); h->priv = eng_priv(h->k, s.flip()); h->pub = eng_pub(h->k, s.flip());
        h->p8 = pkcs8(h->k); h->spki = spki(h->k); w.keys.push_back(std::move(h));
    }
    g_rng.reset(s.bits(2)); w.same("loading");
    static const struct { const char* name; void (*f)(Src&, World&); } ops[] = {
        {"hashing", with_digest}, {"encryption", with_cipher}, {"keyed hashing", with_hmac}, {"signing", with_signature}, {"signing a message", with_message}, {"loading a key", with_encoding},
        {"looking at keys", with_looking}, {"opening a container", with_container}, {"seeding", with_random}, {"block operations", with_primitives}};
    unsigned kinds = 0; std::string did;
    for (int i = 0, m = 1 + (int)s.below(8); i < m; ++i)
    {
        unsigned k = (unsigned)s.below(10); ops[k].f(s, w); w.same(ops[k].name); kinds |= 1u << k; did += std::string(i ? ", " : "") + ops[k].name; label(ops[k].name);
    }
    if (__builtin_popcount(kinds) >= 3) nontrivial();
    note("%d keys: %s", n, did.c_str());
}
