// P26: operations of several threads, each on its own contexts and objects (some sharing read-only keys and stores),
// against the same operations performed one after another.
#include "cont.h"
#include <thread>
#include <functional>
#include <memory>
#include <pthread.h>
using namespace dk;

namespace
{
using Result = std::string;
struct Op { std::string name; std::function<Result()> run; std::function<void(const Result&)> judge; };

std::string txt(const Bytes& b) { return std::string(b.begin(), b.end()); }
Bytes untxt(const std::string& s) { return Bytes(s.begin(), s.end()); }
const void* ptr(const Bytes& b) { return b.empty() ? (const void*)"" : b.data(); }

struct World
{
    std::vector<RefKey> ref; std::vector<PKey> priv, pub;     // shared, read-only
    std::vector<std::unique_ptr<ct::Container>> cont; std::vector<ct::Store> store;
};

Result do_hash(const Bytes& table, const Bytes& d, const std::vector<size_t>& parts)
{
    MdCtx c(EVP_MD_CTX_new()), k(EVP_MD_CTX_new());
    if (EVP_DigestInit_ex(c, MD(), g_engine) != 1) return "init";
    if (!table.empty()) { Bytes t = table; if (EVP_MD_CTX_ctrl(c, CTRL_SBOX_MD, (int)t.size(), t.data()) <= 0) return "table"; }
    size_t at = 0; for (size_t n : parts) { if (EVP_DigestUpdate(c, d.data() + at, n) != 1) return "update"; at += n; }
    if (EVP_MD_CTX_copy_ex(k, c) != 1) return "copy";
    Bytes o(64); unsigned n = 0;
    if (EVP_DigestFinal_ex(k, o.data(), &n) != 1) return "final";
    Bytes o2(64); unsigned n2 = 0;
    if (EVP_DigestFinal_ex(c, o2.data(), &n2) != 1) return "final";
    return txt(Bytes(o.begin(), o.begin() + n)) + txt(Bytes(o2.begin(), o2.begin() + n2));
}
Result do_crypt(const Bytes& table, const Bytes& key, const Bytes& iv, const Bytes& d, const std::vector<size_t>& parts, bool enc)
{
    CipherCtx c(EVP_CIPHER_CTX_new());
    if (EVP_CipherInit_ex(c, CIPHER(), g_engine, key.data(), iv.data(), enc) != 1) return "init";
    if (!table.empty())
    {
        Bytes t = table;
        if (EVP_CIPHER_CTX_ctrl(c, CTRL_SBOX_MD, (int)t.size(), t.data()) <= 0) return "table";
    }
    Bytes o(d.size() + 32); size_t at = 0, got = 0;
    for (size_t n : parts) { int l = 0; if (n && EVP_CipherUpdate(c, o.data() + got, &l, d.data() + at, (int)n) != 1) return "update"; at += n; got += l; }
    int l = 0; if (EVP_CipherFinal_ex(c, o.data() + got, &l) != 1) return "final";
    o.resize(got + l); return txt(o);
}
Result do_sign(EVP_PKEY* k, const Bytes& msg, uint64_t seed)
{
    g_rng.reset(seed);
    MdCtx c(EVP_MD_CTX_new());
    if (EVP_DigestSignInit(c, nullptr, MD(), g_engine, k) != 1) return "init";
    if (EVP_DigestSignUpdate(c, ptr(msg), msg.size()) != 1) return "update";
    Bytes o(400); size_t l = o.size();
    if (EVP_DigestSignFinal(c, o.data(), &l) != 1) return "final";
    o.resize(l); return txt(o);
}
Result do_sign_tbs(EVP_PKEY* k, const Bytes& tbs, uint64_t seed)
{
    g_rng.reset(seed);
    PKeyCtx c(EVP_PKEY_CTX_new(k, g_engine));
    if (!c || EVP_PKEY_sign_init(c) != 1) return "init";
    Bytes o(400); size_t l = o.size();
    if (EVP_PKEY_sign(c, o.data(), &l, tbs.data(), tbs.size()) != 1) return "sign";
    o.resize(l); return txt(o);
}
Result do_verify(EVP_PKEY* k, const Bytes& tbs, const Bytes& sig)
{
    PKeyCtx c(EVP_PKEY_CTX_new(k, g_engine));
    if (!c || EVP_PKEY_verify_init(c) != 1) return "init";
    return EVP_PKEY_verify(c, sig.data(), sig.size(), tbs.data(), tbs.size()) == 1 ? "valid" : "invalid";
}
Result serialise(EVP_PKEY* k)
{
    bool ok; std::string r;
    Bytes q = out_pkcs8(k, &ok); r += ok ? hex(q, q.size()) : "-"; r += ' ';
    q = out_spki(k, &ok); r += ok ? hex(q, q.size()) : "-"; r += ' ';
    Bio b(BIO_new(BIO_s_mem())); EVP_PKEY_print_private(b, k, 0, nullptr); EVP_PKEY_print_params(b, k, 0, nullptr);
    char* t; long n = BIO_get_mem_data(b, &t); r.append(t, n);
    r += std::to_string(EVP_PKEY_get_size(k)) + "/" + std::to_string(EVP_PKEY_get_bits(k));
    return r;
}
Result do_keygen(int named, bool le, uint64_t seed)
{
    g_rng.reset(seed);
    PKeyCtx g(EVP_PKEY_CTX_new_id(OBJ_txt2nid(le ? "dstu4145le" : "dstu4145be"), g_engine));
    if (!g || EVP_PKEY_keygen_init(g) != 1) return "init";
    if (EVP_PKEY_CTX_ctrl_str(g, "curve", curve_sn(named)) != 1) return "curve";
    EVP_PKEY* o = nullptr;
    if (EVP_PKEY_keygen(g, &o) != 1) return "keygen";
    PKey k(o); return serialise(k);
}
Result do_load(const Bytes& p8, const Bytes& spki)
{
    PKey a = load_priv(p8), b = load_pub(spki);
    if (!a || !b) return "refused";
    Result r = serialise(a) + serialise(b) + std::to_string(EVP_PKEY_eq(a, b)) + std::to_string(EVP_PKEY_parameters_eq(a, b));
    PKey c(EVP_PKEY_new());
    r += std::to_string(EVP_PKEY_copy_parameters(c, b) == 1) + std::to_string(EVP_PKEY_parameters_eq(c, a));
    return r;
}
Result do_container(const ct::Container& c)
{
    ct::Store ks;
    int r = ct::parse(c, &ks.p);
    if (r != 1) return "refused";
    Result t = ct::image(ks.p); ERR_clear_error(); return t;
}

bool is_err(const Result& r) { for (const char* e : {"init", "table", "update", "copy", "final", "sign", "keygen", "curve", "refused"}) if (r == e) return true; return false; }

Op make_op(Src& s, World& w, bool shared, bool cheap)
{
    Op op;
    unsigned k = (unsigned)s.below(10);
    uint64_t seed = s.bits(3);
    if (k >= 4 && !shared && (k == 4 || k == 5 || k == 9)) k = 7;
    switch (k)
    {
        case 0: case 1:
        {
            Bytes t = s.flip() ? gen_table(s) : Bytes(), d = s.blob(s.len(cheap ? 400 : 4000)); auto parts = gen_cuts(s, d.size());
            op.name = "hash " + std::to_string(d.size());
            op.run = [=] { return do_hash(t, d, parts); };
            op.judge = [=](const Result& r) { Bytes h = ref::hash(t.empty() ? ref::dflt() : ref::unpack(t.data()), d); REQUIRE(untxt(r) == ([&] { Bytes x = h; x.insert(x.end(), h.begin(), h.end()); return x; })(), "hash of %zu bytes: %s", d.size(), hex(untxt(r)).c_str()); };
            break;
        }
        case 2: case 3:
        {
            Bytes t = s.flip() ? gen_table(s) : Bytes(), d = s.blob(s.len(cheap ? 400 : 4000)), key = s.noise(32), iv = s.noise(8); auto parts = gen_cuts(s, d.size()); bool enc = s.flip();
            op.name = enc ? "encrypt " : "decrypt "; op.name += std::to_string(d.size());
            op.run = [=] { return do_crypt(t, key, iv, d, parts, enc); };
            op.judge = [=](const Result& r) { Bytes x = ref::cfb(t.empty() ? ref::dflt() : ref::unpack(t.data()), key.data(), iv.data(), d, enc); REQUIRE(untxt(r) == x, "%s of %zu bytes: %s", enc ? "encryption" : "decryption", d.size(), hex(untxt(r), 40).c_str()); };
            break;
        }
        case 4:
        {
            size_t i = s.below(w.ref.size()); Bytes m = s.blob(s.len(300)); EVP_PKEY* e = w.priv[i]; const RefKey* rk = &w.ref[i];
            bool raw = s.flip(); if (raw) { m.resize(32); }
            op.name = "sign";
            op.run = [=] { return raw ? do_sign_tbs(e, m, seed) : do_sign(e, m, seed); };
            op.judge = [=](const Result& r) { REQUIRE(!is_err(r) && verify_bytes(*rk, raw ? m : ref::hash(rk->sbox(), m), untxt(r)), "a signature made with the shared key %s is not valid (%s)", describe(*rk).c_str(), is_err(r) ? r.c_str() : "wrong bytes"); };
            break;
        }
        case 5:
        {
            size_t i = s.below(w.ref.size()); EVP_PKEY* e = w.pub[i]; const RefKey* rk = &w.ref[i];
            Bytes tbs = s.noise(32), sg(1); Sig g; Bn one(b2bn(gen_secret(s, *rk->c)));
            bool good = s.flip();
            if (sign(*rk, tbs, one, &g)) { if (!good) g.s.back() ^= 1; sg = sig_raw(*rk, g); Bytes o; if (sg.size() < 128) o = {4, (uint8_t)sg.size()}; else o = {4, 0x81, (uint8_t)sg.size()}; o.insert(o.end(), sg.begin(), sg.end()); sg = o; }
            bool want = verify_bytes(*rk, tbs, sg);
            op.name = want ? "verify good" : "verify bad";
            op.run = [=] { return do_verify(e, tbs, sg); };
            op.judge = [=](const Result& r) { REQUIRE(r == (want ? "valid" : "invalid"), "verification with the shared key %s: %s expected %s", describe(*rk).c_str(), r.c_str(), want ? "valid" : "invalid"); };
            break;
        }
        case 6:
        {
            int n = (int)s.below(cheap ? 4 : 10); bool le = s.flip();
            op.name = std::string("generate ") + curve_sn(n);
            op.run = [=] { return do_keygen(n, le, seed); };
            op.judge = [=](const Result& r) { REQUIRE(!is_err(r), "key generation fails: %s", r.c_str()); };
            break;
        }
        case 7:
        {
            auto rk = std::make_shared<RefKey>(gen_key(s, 0)); bool ex = s.flip();
            Bytes a = pkcs8(*rk, ex), b = spki(*rk, ex);
            op.name = "load";
            op.run = [=] { return do_load(a, b); };
            op.judge = [=](const Result& r) { REQUIRE(!is_err(r), "a key is refused: %s", describe(*rk).c_str()); REQUIRE(r.find(hex(spki(*rk), 5000)) != std::string::npos, "a loaded key comes out different"); };
            break;
        }
        case 8:
        {
            auto c = std::make_shared<ct::Container>(s.flip() ? ct::gen_jks(s) : s.flip() ? ct::gen_p12(s) : ct::gen_any(s, true));
            op.name = "open " + c->desc;
            op.run = [=] { return do_container(*c); };
            op.judge = [=](const Result& r) { REQUIRE((r == "refused") == !c->readable, "a container is %s: %s", r == "refused" ? "refused" : "accepted", c->desc.c_str()); };
            break;
        }
        default:
        {
            if (!w.store.empty() && s.flip())
            {
                KeyStore* p = w.store[s.below(w.store.size())].p;
                op.name = "look at the shared store";
                op.run = [=] { Result r = ct::image(p); ERR_clear_error(); return r; };
            }
            else
            {
                EVP_PKEY* e = w.priv[s.below(w.ref.size())], *p = w.pub[s.below(w.ref.size())];
                op.name = "serialise the shared key";
                op.run = [=] { Result r = serialise(e) + serialise(p) + std::to_string(EVP_PKEY_eq(e, p)); ERR_clear_error(); return r; };
            }
            op.judge = [](const Result&) {};
        }
    }
    return op;
}
Result guarded(const Op& o)
{
    try { return o.run(); }
    catch (const PropFail& f) { return "failed: " + f.msg; }
}

void together(Src& s, bool fresh, bool cheap)
{
    World w;
    if (!fresh)
    {
        int nk = 1 + (int)s.below(2);
        for (int i = 0; i < nk; ++i) { w.ref.push_back(gen_key(s, 0)); w.priv.push_back(eng_priv(w.ref.back())); w.pub.push_back(eng_pub(w.ref.back())); }
        if (s.flip())
        {
            w.cont.emplace_back(new ct::Container(s.flip() ? ct::gen_jks(s) : ct::gen_p12(s)));
            w.store.emplace_back(); if (ct::parse(*w.cont.back(), &w.store.back().p) != 1 || !w.store.back().p) w.store.pop_back();
        }
    }
    ERR_clear_error();
    int T = 2 + (int)s.below(7);
    bool same = s.chance(100);                     // all threads do the same kind of thing
    std::vector<std::vector<Op>> ops(T);
    unsigned reps = 1 + (unsigned)s.below(3);
    if (same)
    {
        int n = 1 + (int)s.below(3);
        for (int i = 0; i < n; ++i) { Op o = make_op(s, w, !fresh, cheap); for (auto& v : ops) v.push_back(o); }
    }
    else for (auto& v : ops) { int n = 1 + (int)s.below(4); for (int i = 0; i < n; ++i) v.push_back(make_op(s, w, !fresh, cheap)); }
    std::vector<std::vector<std::vector<Result>>> got(T);
    races_reset();
    pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, T);
    {
        std::vector<std::thread> th;
        for (int t = 0; t < T; ++t)
            th.emplace_back([&, t] {
                pthread_barrier_wait(&bar);
                for (unsigned r = 0; r < reps; ++r)
                {
                    std::vector<Result> x;
                    for (auto& o : ops[t]) { x.push_back(guarded(o)); ERR_clear_error(); }
                    got[t].push_back(std::move(x));
                }
                OPENSSL_thread_stop();
            });
        for (auto& t : th) t.join();
    }
    pthread_barrier_destroy(&bar);
    std::string names;
    for (int t = 0; t < T; ++t) { names += " |"; for (auto& o : ops[t]) { names += ' '; names += o.name.substr(0, 40); label(o.name.substr(0, o.name.find(' ')).c_str()); } if (same) break; }
    note("threads=%d%s rounds=%u%s", T, same ? " same" : "", reps, names.c_str());
    std::string rc = races();
    REQUIRE(rc.empty(), "%s", rc.c_str());
    size_t total = 0;
    for (int t = 0; t < T; ++t)
        for (size_t i = 0; i < ops[t].size(); ++i)
        {
            if (same && t) { for (auto& x : got[t]) REQUIRE(x[i] == got[0][0][i], "thread %d: '%s' differs from the same operation in thread 0: %.300s / %.300s", t, ops[t][i].name.c_str(), hex(untxt(x[i]), 120).c_str(), hex(untxt(got[0][0][i]), 120).c_str()); ++total; continue; }
            Result alone = guarded(ops[t][i]); ERR_clear_error();
            for (auto& x : got[t])
                REQUIRE(x[i] == alone, "thread %d of %d: '%s' gives %s among other threads, %s alone", t, T, ops[t][i].name.c_str(), hex(untxt(x[i]), 120).c_str(), hex(untxt(alone), 120).c_str());
            ops[t][i].judge(alone);
            ++total; checked(1 + reps);
        }
    if (total >= 3) nontrivial();
}
}

SCENARIO_OPT("P26", same_results, 600, 60000, THREADED, "three or more operations in two or more threads")
{
    together(s, false, false);
}
SCENARIO_OPT("P26", same_results_first_use, 150, 5000, THREADED | FORK_PER_CASE, "three or more operations in two or more threads")
{
    together(s, true, false);
}
SCENARIO_TSAN("P26", no_race_elsewhere, 150, 20000, THREADED, "three or more operations in two or more threads")
{
    together(s, false, true);
}
SCENARIO_TSAN("P26", no_race_engine_first_use, 80, 4000, THREADED | FORK_PER_CASE, "three or more operations in two or more threads")
{
    together(s, true, true);
}
