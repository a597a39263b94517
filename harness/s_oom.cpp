// P27: one allocation (or every one from some point on) fails while an operation runs. The operation must report failure or
// give the result it always gives; afterwards everything works as before and nothing is left behind.
#include "cont.h"
#include <openssl/cms.h>
#include <openssl/pem.h>
#include <functional>
#include <memory>
using namespace dk;

namespace
{
using Result = std::string;          // "!step" when a step reports failure
struct Op { std::string name; std::function<Result()> run; std::function<bool(const Result& r, const Result& want)> also; };   // also: another right result
std::string txt(const Bytes& b) { return std::string(b.begin(), b.end()); }
const void* ptr(const Bytes& b) { return b.empty() ? (const void*)"" : b.data(); }
struct Calm { MemFault m = g_memfault; Calm() { g_memfault.armed = false; } ~Calm() { g_memfault.armed = m.armed; } };   // the harness's own looking at results

Bytes der_pub(EVP_PKEY* k, bool* ok) { uint8_t* t = nullptr; int n = i2d_PUBKEY(k, &t); *ok = n > 0; Bytes r; if (n > 0) r.assign(t, t + n); OPENSSL_free(t); return r; }
Bytes der_priv(EVP_PKEY* k, bool* ok)
{
    *ok = false; Bytes r;
    P8 p(EVP_PKEY2PKCS8(k)); if (!p) return r;
    uint8_t* t = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO(p, &t); *ok = n > 0; if (n > 0) r.assign(t, t + n); OPENSSL_free(t); return r;
}
Result material(EVP_PKEY* k)         // looked at in peace: everything a key is
{
    Calm c; bool a, b; Bytes p = der_priv(k, &a), q = der_pub(k, &b);
    ERR_clear_error();
    return (a ? hex(p, 5000) : "no private key") + "/" + (b ? hex(q, 5000) : "no public key");
}
Op op_hash(Src& s)
{
    Bytes t = s.flip() ? gen_table(s) : Bytes(), d = s.blob(s.len(200)); bool copy = s.flip();
    return {"hash", [=]() -> Result {
        MdCtx c(EVP_MD_CTX_new()), k(EVP_MD_CTX_new());
        if (!c || !k) return "!new";
        if (EVP_DigestInit_ex(c, MD(), g_engine) != 1) return "!init";
        if (!t.empty()) { Bytes x = t; if (EVP_MD_CTX_ctrl(c, CTRL_SBOX_MD, (int)x.size(), x.data()) <= 0) return "!table"; }
        size_t h = d.size() / 2;
        if (EVP_DigestUpdate(c, ptr(d), h) != 1) return "!update";
        if (copy && EVP_MD_CTX_copy_ex(k, c) != 1) return "!copy";
        EVP_MD_CTX* u = copy ? k : c;
        if (EVP_DigestUpdate(u, d.data() + h, d.size() - h) != 1) return "!update";
        Bytes o(32); unsigned n = 0;
        if (EVP_DigestFinal_ex(u, o.data(), &n) != 1) return "!final";
        return txt(o);
    }};
}
Op op_crypt(Src& s)
{
    Bytes t = s.flip() ? gen_table(s) : Bytes(), d = s.blob(s.len(200)), key = s.noise(32), iv = s.noise(8); bool enc = s.flip(); unsigned how = (unsigned)s.below(3);
    return {"crypt", [=]() -> Result {
        CipherCtx c(EVP_CIPHER_CTX_new()), k(EVP_CIPHER_CTX_new());
        if (!c || !k) return "!new";
        if (EVP_CipherInit_ex(c, CIPHER(), g_engine, key.data(), iv.data(), enc) != 1) return "!init";
        if (!t.empty()) { Bytes x = t; if (EVP_CIPHER_CTX_ctrl(c, CTRL_SBOX_MD, (int)x.size(), x.data()) <= 0) return "!table"; }
        CipherCtx* u = &c;
        if (how == 1) { if (EVP_CIPHER_CTX_copy(k, c) != 1) return "!copy"; u = &k; }
        if (how == 2)
        {
            Own<ASN1_TYPE, ASN1_TYPE_free> p(ASN1_TYPE_new()); if (!p) return "!new";
            if (EVP_CIPHER_param_to_asn1(c, p) <= 0) return "!export";
            if (EVP_CipherInit_ex(k, CIPHER(), g_engine, key.data(), nullptr, enc) != 1) return "!init";
            if (EVP_CIPHER_asn1_to_param(k, p) <= 0) return "!import";
            u = &k;
        }
        Bytes o(d.size() + 32); int l = 0, l2 = 0;
        if (!d.empty() && EVP_CipherUpdate(*u, o.data(), &l, d.data(), (int)d.size()) != 1) return "!update";
        if (EVP_CipherFinal_ex(*u, o.data() + l, &l2) != 1) return "!final";
        o.resize(l + l2); return txt(o);
    }};
}
Op op_sign(Src& s, const std::shared_ptr<PKey>& k, bool tbsOnly)
{
    Bytes m = s.blob(tbsOnly ? 32 : s.len(100)); uint64_t seed = s.bits(3);
    return {tbsOnly ? "sign" : "digest and sign", [=]() -> Result {
        g_rng.reset(seed);
        Bytes o(400); size_t l = o.size();
        if (tbsOnly)
        {
            PKeyCtx c(EVP_PKEY_CTX_new(*k, g_engine));
            if (!c) return "!new";
            if (EVP_PKEY_sign_init(c) != 1) return "!init";
            if (EVP_PKEY_sign(c, o.data(), &l, m.data(), m.size()) != 1) return "!sign";
        }
        else
        {
            MdCtx c(EVP_MD_CTX_new());
            if (!c) return "!new";
            if (EVP_DigestSignInit(c, nullptr, MD(), g_engine, *k) != 1) return "!init";
            if (EVP_DigestSignUpdate(c, ptr(m), m.size()) != 1) return "!update";
            if (EVP_DigestSignFinal(c, o.data(), &l) != 1) return "!final";
        }
        o.resize(l); return txt(o);
    }};
}
Op op_verify(Src& s, const RefKey& rk, const std::shared_ptr<PKey>& k)
{
    bool raw = s.flip(), good = s.flip();
    Bytes m = s.blob(raw ? 32 : s.len(100)), tbs = raw ? m : ref::hash(rk.sbox(), m), sg; Sig g; 
    Bn e(b2bn(gen_secret(s, *rk.c)));
    if (!sign(rk, tbs, e, &g)) throw Discard();
    if (!good) (s.flip() ? g.s : g.r).back() ^= uint8_t(1 << s.below(3));
    sg = der::oct(sig_raw(rk, g));
    return {good ? "verify good" : "verify bad", [=]() -> Result {
        if (raw)
        {
            PKeyCtx c(EVP_PKEY_CTX_new(*k, g_engine));
            if (!c) return "!new";
            if (EVP_PKEY_verify_init(c) != 1) return "!init";
            return EVP_PKEY_verify(c, sg.data(), sg.size(), m.data(), m.size()) == 1 ? "valid" : "!verify";
        }
        MdCtx c(EVP_MD_CTX_new());
        if (!c) return "!new";
        if (EVP_DigestVerifyInit(c, nullptr, MD(), g_engine, *k) != 1) return "!init";
        if (EVP_DigestVerifyUpdate(c, ptr(m), m.size()) != 1) return "!update";
        return EVP_DigestVerifyFinal(c, sg.data(), sg.size()) == 1 ? "valid" : "!verify";
    }};
}
Op op_keygen(Src& s, const Curve& c, bool le)
{
    uint64_t seed = s.bits(3); unsigned how = (unsigned)s.below(3); if (c.named < 0 || c.toy) how = 2;
    int named = c.named; const Curve* pc = &c; Bytes t = s.flip() ? gen_table(s) : Bytes();
    return {"generate", [=]() -> Result {
        g_rng.reset(seed);
        PKeyCtx g(EVP_PKEY_CTX_new_id(OBJ_txt2nid(le ? "dstu4145le" : "dstu4145be"), g_engine));
        if (!g) return "!new";
        if (EVP_PKEY_keygen_init(g) != 1) return "!init";
        if (how == 1 && EVP_PKEY_CTX_ctrl_str(g, "curve", curve_sn(named)) != 1) return "!curve";
        if (how == 2 && EVP_PKEY_CTX_ctrl(g, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE_PKEY, 0, pc->grp) != 1) return "!group";
        if (!t.empty()) { Bytes x = t; if (EVP_PKEY_CTX_ctrl(g, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX_PKEY, 64, x.data()) != 1) return "!table"; }
        EVP_PKEY* o = nullptr;
        if (EVP_PKEY_keygen(g, &o) != 1) { EVP_PKEY_free(o); return "!keygen"; }
        PKey k(o); 
        return material(k);
    }};
}
Op op_load(Src& s, const RefKey& rk)
{
    bool priv = s.flip(), ex = s.flip(); Bytes d = priv ? pkcs8(rk, ex) : spki(rk, ex);
    return {priv ? "load a private key" : "load a public key", [=]() -> Result {
        const uint8_t* p = d.data();
        PKey k(priv ? d2i_AutoPrivateKey(nullptr, &p, (long)d.size()) : d2i_PUBKEY(nullptr, &p, (long)d.size()));
        if (!k) return "!decode";
        return material(k);
    }};
}
Op op_save(Src& s, const std::shared_ptr<PKey>& k)
{
    unsigned how = (unsigned)s.below(4);
    static const char* nm[] = {"save a private key", "save a public key", "print a key", "print parameters"};
    return {nm[how], [=]() -> Result {
        bool ok; Bytes b;
        if (how < 2) { b = how ? der_pub(*k, &ok) : der_priv(*k, &ok); return ok ? hex(b, 5000) : "!encode"; }
        Bio o(BIO_new(BIO_s_mem())); if (!o) return "!new";
        int r = how == 2 ? EVP_PKEY_print_private(o, *k, 0, nullptr) : EVP_PKEY_print_params(o, *k, 0, nullptr);
        if (r != 1) return "!print";
        char* t; long n = BIO_get_mem_data(o, &t); return std::string(t, n);
    }, [=](const Result& r, const Result& want) -> bool {
        // a named curve that could not be recognised is spelled out: that is the same key
        if (how > 1) return false;
        Calm c; Bytes b = unhex(r); const uint8_t* p = b.data();
        PKey q(how ? d2i_PUBKEY(nullptr, &p, (long)b.size()) : d2i_AutoPrivateKey(nullptr, &p, (long)b.size()));
        if (!q || p != b.data() + b.size() || EVP_PKEY_eq(q, *k) != 1) return false;
        bool ok; b = how ? der_pub(q, &ok) : der_priv(q, &ok);
        return ok && hex(b, 5000) == want;
    }};
}
Op op_compare(const std::shared_ptr<PKey>& a, const std::shared_ptr<PKey>& b, bool params)
{
    return {params ? "compare parameters" : "compare", [=]() -> Result {
        int r = params ? EVP_PKEY_parameters_eq(*a, *b) : EVP_PKEY_eq(*a, *b);
        return r == 1 ? "equal" : "!different";
    }};
}
// keys() cut out of an image, and what follows them
std::vector<std::string> keys(const Result& t, std::string* rest)
{
    std::vector<std::string> r; size_t at = t.find(" certs"); *rest = at == std::string::npos ? t : t.substr(at);
    for (size_t i = t.find(" ["); i < at; ) { size_t e = t.find("]", i); r.push_back(t.substr(i, e - i)); i = t.find(" [", e); if (i == std::string::npos) break; }
    return r;
}
// The known finding second_key_without_memory: the second key of a pair is left out of the store when it cannot be made.
bool without_seconds(const Result& r, const Result& want, const ct::Expect& e)
{
    std::string a, b; std::vector<std::string> x = keys(r, &a), y = keys(want, &b);
    if (a != b || y.size() != e.keys.size() || x.size() >= y.size()) return false;
    size_t j = 0; for (size_t i = 0; i < y.size(); ++i) { if (j < x.size() && x[j] == y[i]) ++j; else if (!e.keys[i].second) return false; }
    return j == x.size();
}
Op op_open(Src& s)
{
    auto c = std::make_shared<ct::Container>(s.flip() ? ct::gen_jks(s) : s.flip() ? ct::gen_p12(s) : ct::gen_any(s, true));
    bool viaBio = s.flip(), wrong = s.chance(40);
    Bytes pass = c->pass, kp = c->keypass; if (wrong) pass.push_back('x');
    return {std::string("open ") + (viaBio ? "by stream " : "") + (c->kind == 0 ? "jks" : c->kind == 1 ? "key6" : "p12"), [=]() -> Result {
        ct::Store ks; int r;
        if (viaBio)
        {
            Bio b(BIO_new_mem_buf(ptr(c->bytes), (int)c->bytes.size())); if (!b) return "!new";
            r = ct::read_bio(*c, b, pass, kp, &ks.p);
        }
        else r = ct::parse(*c, c->bytes, pass, kp, &ks.p);
        if (r != 1) { REQUIRE(!ks.p, "a reader that fails hands out a store"); return "!refused"; }
        REQUIRE(ks.p, "a reader that succeeds hands out no store");
        Calm q; Result t = ct::image(ks.p); ERR_clear_error(); return t;
    }, [c](const Result& r, const Result& want) -> bool { return without_seconds(r, want, c->want); }};
}
struct Level { int64_t allocs, bytes; };
Level level() { ERR_clear_error(); OPENSSL_thread_stop(); return Level{live_allocs(), live_bytes()}; }
std::string show(const Result& r) { return r.size() && r[0] == '!' ? r : r == "valid" || r == "equal" ? r : hex(Bytes(r.begin(), r.end()), 60); }
}

SCENARIO("P27", memory_runs_out, 1500, 16000, 0, "an allocation failed inside the operation")
{
    RefKey rk = gen_key(s, 1);
    auto priv = std::make_shared<PKey>(eng_priv(rk)), pub = std::make_shared<PKey>(eng_pub(rk));
    Op op;
    switch (s.below(10))
    {
        case 0: op = op_hash(s); break;
        case 1: op = op_crypt(s); break;
        case 2: op = op_sign(s, priv, s.flip()); break;
        case 3: op = op_verify(s, rk, pub); break;
        case 4: op = op_keygen(s, gen_curve(s, 1), s.flip()); break;
        case 5: op = op_load(s, rk); break;
        case 6: op = op_save(s, s.chance(200) ? priv : pub); break;
        case 7: { bool same = s.flip(); RefKey o = same ? clone(rk) : gen_key(s, 1); op = op_compare(pub, std::make_shared<PKey>(eng_pub(o, s.flip())), s.flip()); break; }
        default: op = op_open(s);
    }
    label(op.name.c_str());
    Result want = op.run(); ERR_clear_error();
    g_memfault.arm(0, false); Result again = op.run(); uint64_t n = g_memfault.count; g_memfault.off(); ERR_clear_error();
    REQUIRE(again == want, "%s: two runs differ: %s / %s", op.name.c_str(), show(want).c_str(), show(again).c_str());
    note("%s: %llu allocations, result %s;", op.name.c_str(), (unsigned long long)n, show(want).c_str());
    unsigned picks = n <= 40 ? (unsigned)n : 24;
    bool all = s.chance(64);
    for (unsigned i = 0; i < picks; ++i)
    {
        uint64_t k = n <= 40 ? i + 1 : 1 + s.below(n);
        g_case.desc += " "; note("%llu", (unsigned long long)k);
        g_memfault.arm(k, all); Result r = op.run(); uint64_t hit = g_memfault.struck; g_memfault.off(); ERR_clear_error();
        REQUIRE(r == want || (op.also && op.also(r, want)) || (r.size() && r[0] == '!'), "%s, allocation %llu of %llu failing%s: %s instead of %s or a failure", op.name.c_str(), (unsigned long long)k, (unsigned long long)n, all ? " and all after it" : "", show(r).c_str(), show(want).c_str());
        checked(1); if (hit) { nontrivial(); label(r == want ? "survived it" : "reported"); }
        // what was used works as before
        if (i % 4 == 3 || i + 1 == picks) { r = op.run(); ERR_clear_error(); REQUIRE(r == want, "%s after a run with allocation %llu of %llu failing: %s instead of %s", op.name.c_str(), (unsigned long long)k, (unsigned long long)n, show(r).c_str(), show(want).c_str()); }
        // and nothing is left behind
        Level lv[9]; int m = 0;
        auto rep = [&] { g_memfault.arm(k, all); Result x = op.run(); g_memfault.off(); ERR_clear_error(); x.clear(); x.shrink_to_fit(); lv[m++] = level(); };
        rep(); rep();
        while (m < 8 && (lv[m - 1].allocs > lv[m - 2].allocs)) rep();
        bool a = m == 8; for (int j = 1; j < m; ++j) a &= lv[j].allocs > lv[j - 1].allocs;
        REQUIRE(!a, "%s: every run with allocation %llu of %llu failing leaves %lld allocations behind", op.name.c_str(), (unsigned long long)k, (unsigned long long)n, (long long)(lv[m - 1].allocs - lv[m - 2].allocs));
    }
}

// a second key that cannot be made for want of memory is left out of a store that is reported as read
SCENARIO("P27", second_key_without_memory, 12, 60, SLOW, "every case")
{
    auto p8 = ct::gen_p8(s, true);
    ct::Container c = ct::jks_of({p8.der}, s); c.want.keys = p8.keys;
    auto open = [&](uint64_t k, uint64_t* n) -> Result {
        ct::Store ks; g_memfault.arm(k, false); int r = ct::parse(c, &ks.p); *n = g_memfault.count; g_memfault.off(); ERR_clear_error();
        if (r != 1) return "!refused";
        return ct::image(ks.p);
    };
    uint64_t n = 0, x; Result want = open(0, &n);
    std::string rest; if (keys(want, &rest).size() < 2) throw Discard();
    nontrivial();
    for (unsigned i = 0; i < 60; ++i)
    {
        uint64_t k = n - s.below(std::min<uint64_t>(n, 400));
        Result r = open(k, &x); checked(); ERR_clear_error();
        REQUIRE(r[0] == '!' || r == want || !without_seconds(r, want, c.want), "the second key is left out of a store reported as read (allocation %llu of %llu failed)", (unsigned long long)k, (unsigned long long)n);
        REQUIRE(r[0] == '!' || r == want, "another store is read (allocation %llu of %llu failed)", (unsigned long long)k, (unsigned long long)n);
    }
}

// Loading the engine. A load that fails leaves nothing behind that names the engine, and the next one succeeds.
namespace
{
ENGINE* load(uint64_t k = 0, bool all = false)
{
    ENGINE* e = ENGINE_by_id("dynamic");         // in peace: ENGINE_by_id itself does not survive it (OpenSSL 3.0)
    REQUIRE(e, "the dynamic engine is missing");
    g_memfault.arm(k, all); struct Off { ~Off() { g_memfault.off(); } } off;
    std::string so = std::string(getenv("DSTU_LIBDIR")) + "/engine/dstu.so";
    if (ENGINE_ctrl_cmd_string(e, "SO_PATH", so.c_str(), 0) && ENGINE_ctrl_cmd_string(e, "LIST_ADD", "0", 0) && ENGINE_ctrl_cmd_string(e, "LOAD", nullptr, 0)) return e;
    ENGINE_free(e);
    return nullptr;
}
void unload(ENGINE* e)
{
    ENGINE_unregister_digests(e); ENGINE_unregister_ciphers(e); ENGINE_unregister_pkey_meths(e); ENGINE_unregister_pkey_asn1_meths(e);
    ENGINE_free(e);
}
std::string use(ENGINE* e, uint8_t x)
{
    Bytes d(37, x), o(32), c(37); unsigned n = 0; int l = 0, l2 = 0;
    MdCtx m(EVP_MD_CTX_new()); const EVP_MD* md = ENGINE_get_digest(e, NID_dstu34311);
    if (!md || EVP_get_digestbyname("dstu34311") != md || EVP_DigestInit_ex(m, md, e) != 1 || EVP_DigestUpdate(m, d.data(), d.size()) != 1 || EVP_DigestFinal_ex(m, o.data(), &n) != 1) return "its digest does not work";
    if (o != ref::hash(ref::dflt(), d)) return "its digest gives another hash";
    CipherCtx k(EVP_CIPHER_CTX_new()); const EVP_CIPHER* ci = ENGINE_get_cipher(e, NID_dstu28147_cfb);
    if (!ci || EVP_CipherInit_ex(k, ci, e, d.data(), d.data(), 1) != 1 || EVP_CipherUpdate(k, c.data(), &l, d.data(), 37) != 1 || EVP_CipherFinal_ex(k, c.data() + l, &l2) != 1) return "its cipher does not work";
    for (int nid : {NID_dstu4145le, NID_dstu4145be})
    {
        PKeyCtx g(EVP_PKEY_CTX_new_id(nid, e)); EVP_PKEY* p = nullptr;
        if (!g || EVP_PKEY_keygen_init(g) != 1 || EVP_PKEY_CTX_ctrl_str(g, "curve", "uacurve0") != 1 || EVP_PKEY_keygen(g, &p) != 1) return "its key generation does not work";
        PKey q(p); bool ok; Bytes b = der_priv(q, &ok); if (!ok) return "its keys cannot be encoded";
    }
    return "";
}
std::string traces()
{
    std::string r; ENGINE* x;
    if ((x = ENGINE_get_digest_engine(NID_dstu34311))) { r += " digest"; ENGINE_finish(x); }
    if ((x = ENGINE_get_cipher_engine(NID_dstu28147_cfb))) { r += " cipher"; ENGINE_finish(x); }
    for (int nid : {NID_dstu4145le, NID_dstu4145be})
    {
        if ((x = ENGINE_get_pkey_meth_engine(nid))) { r += " key method"; ENGINE_finish(x); }
        if ((x = ENGINE_get_pkey_asn1_meth_engine(nid))) { r += " key encoding"; ENGINE_finish(x); }
    }
    for (const char* n : {"dstu34311"}) if (EVP_get_digestbyname(n)) r += " digest name";
    if (EVP_get_cipherbyname("dstu28147-cfb")) r += " cipher name";
    ERR_clear_error();
    return r;
}
}
SCENARIO("P27", memory_runs_out_while_loading, 200, 4000, FORK_PER_CASE | NO_ENGINE, "an allocation failed while the engine was loaded")
{
    ENGINE* e = nullptr; std::string why; uint64_t n = 0;
    for (int i = 0; i < 2; ++i)      // everything OpenSSL makes once is there
    {
        e = load(); n = g_memfault.count;
        REQUIRE(e, "the engine cannot be loaded: %s", err_text().c_str());
        if (i == 0) { why = use(e, 7); REQUIRE(why.empty(), "a loaded engine: %s", why.c_str()); }
        unload(e); why = traces(); REQUIRE(why.empty(), "an unloaded engine is still known:%s", why.c_str());
    }
    int64_t base = level().allocs, usual = 0;      // OpenSSL keeps something for every load (the list of PBE algorithms)
    for (int i = 0; i < 3; ++i) { e = load(); REQUIRE(e, "load: %s", err_text().c_str()); unload(e); int64_t now = level().allocs; usual = std::max(usual, now - base); base = now; }
    note("%llu allocations, %lld stay:", (unsigned long long)n, (long long)usual);
    note(" failing:");
    Level first{}, last{}; int grew = 0;
    bool all = s.chance(64), same = s.flip(); uint64_t k = 1 + s.below(n);
    for (int i = 0; i < 8; ++i)
    {
        if (!same) k = 1 + s.below(n);
        note(" %llu", (unsigned long long)k);
        e = load(k, all); uint64_t hit = g_memfault.struck; ERR_clear_error();
        if (hit) nontrivial();
        checked();
        if (e) { why = use(e, (uint8_t)i); REQUIRE(why.empty(), "loaded with allocation %llu of %llu failing: %s", (unsigned long long)k, (unsigned long long)n, why.c_str()); unload(e); label("loaded"); }
        else label("refused");
        why = traces(); REQUIRE(why.empty(), "after a load with allocation %llu of %llu failing the engine is still known:%s", (unsigned long long)k, (unsigned long long)n, why.c_str());
        last = level(); if (same && i > 1 && last.allocs > first.allocs + usual) ++grew;
        if (s.chance(100)) { e = load(); REQUIRE(e, "the engine cannot be loaded after a load with allocation %llu of %llu failing: %s", (unsigned long long)k, (unsigned long long)n, err_text().c_str()); why = use(e, (uint8_t)i); REQUIRE(why.empty(), "loaded again: %s", why.c_str()); unload(e); last = level(); }
        first = last;
    }
    REQUIRE(!same || grew < 6, "every load with allocation %llu of %llu failing leaves allocations behind", (unsigned long long)k, (unsigned long long)n);
}
