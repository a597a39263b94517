// P05, P06, P07: signatures
#include "dk.h"
#include <openssl/cms.h>
#include <set>
#include <cmath>
using namespace dk;

static Bytes gen_tbs(Src& s, const Curve& c)
{
    switch (s.below(9))
    {
        case 0: return Bytes(s.below(2) ? 32 : s.below(80), 0);                                   // all zero, also empty
        case 1: { Bytes b(32 + s.below(60), 0); size_t lo = (c.m + 7) / 8; for (size_t i = lo; i < b.size(); ++i) b[i] = uint8_t(1 + s.below(255)); return b; } // only bits above the field are set
        case 2: { Bytes b(c.fb, 0); if (c.m % 8) b[c.fb - 1] = uint8_t(1 << (c.m % 8)); else b.push_back(1); return b; }   // exactly bit m
        case 3: { Bytes b(c.fb, 0); b[(c.m - 1) / 8] = uint8_t(1 << ((c.m - 1) % 8)); return b; }                          // exactly bit m-1
        case 4: return Bytes(1 + s.below(90), 0xff);
        case 5: return s.chance(24) ? s.noise(s.below(s.flip() ? 1000 : 70000)) : s.blob(s.len(90));
        default: return s.noise(32);
    }
}
// EVP_PKEY_sign through the engine into a guarded buffer; returns status
static int do_sign(EVP_PKEY* k, const Bytes& tbs, size_t cap, Bytes* sig, size_t* reported)
{
    PKeyCtx c(EVP_PKEY_CTX_new(k, g_engine));
    REQUIRE(c && EVP_PKEY_sign_init(c) == 1, "sign init failed: %s", err_text().c_str());
    uint8_t* b = (uint8_t*)malloc(cap ? cap : 1);
    uint8_t* t = (uint8_t*)malloc(tbs.size() ? tbs.size() : 1); if (!tbs.empty()) memcpy(t, tbs.data(), tbs.size());
    size_t n = cap;
    int r = EVP_PKEY_sign(c, b, &n, t, tbs.size());
    if (r == 1 && n <= cap) sig->assign(b, b + n);
    free(b); free(t);
    *reported = n;
    return r;
}
static int do_verify(EVP_PKEY* k, const Bytes& tbs, const Bytes& sig)
{
    PKeyCtx c(EVP_PKEY_CTX_new(k, g_engine));
    REQUIRE(c && EVP_PKEY_verify_init(c) == 1, "verify init failed: %s", err_text().c_str());
    uint8_t* b = (uint8_t*)malloc(sig.size() ? sig.size() : 1); if (!sig.empty()) memcpy(b, sig.data(), sig.size());
    uint8_t* t = (uint8_t*)malloc(tbs.size() ? tbs.size() : 1); if (!tbs.empty()) memcpy(t, tbs.data(), tbs.size());
    int r = EVP_PKEY_verify(c, b, sig.size(), t, tbs.size());
    free(b); free(t);
    ERR_clear_error();
    return r;
}
static Sig split(const RefKey& k, const Bytes& sig, const char* what)
{
    Bytes want = der::oct(Bytes(2 * k.c->nb));
    REQUIRE(sig.size() == want.size(), "%s: signature of %zu bytes, expected %zu", what, sig.size(), want.size());
    size_t h = sig.size() - 2 * k.c->nb;
    REQUIRE(!memcmp(sig.data(), want.data(), h), "%s: signature is not a DER octet string: %s", what, hex(sig).c_str());
    Bytes v(sig.begin() + h, sig.end());
    if (k.le) v = rev(v);
    return Sig{Bytes(v.begin(), v.begin() + k.c->nb), Bytes(v.begin() + k.c->nb, v.end())};
}
static void require_valid(const RefKey& k, const Bytes& tbs, const Bytes& sig, const char* what)
{
    Sig g = split(k, sig, what);
    Bn s(b2bn(g.s)), r(b2bn(g.r));
    REQUIRE(!BN_is_zero(s) && !BN_is_zero(r), "%s: zero component", what);
    REQUIRE(BN_cmp(s, k.c->N) < 0 && BN_cmp(r, k.c->N) < 0, "%s: component out of range", what);
    REQUIRE(BN_num_bits(r) < BN_num_bits(k.c->N), "%s: r is not truncated below the order", what);
    REQUIRE(verify(*k.c, k.Q, tbs, s, r), "%s: the signature does not satisfy the verification equation (%s, tbs %s, sig %s)", what, describe(k).c_str(), hex(tbs).c_str(), hex(sig).c_str());
    checked();
}

SCENARIO("P05", sign_valid, 6000, 120000, 0, "every case signs with a generated key")
{
    RefKey k = gen_key(s, 0);
    PKey e = eng_priv(k, s.flip());
    Bytes tbs = gen_tbs(s, *k.c);
    g_rng.reset(s.bits(2));
    if (s.chance(60)) // bytes the nonce is made from: zero, maximal or of low weight first
    {
        switch (s.below(3)) { case 0: g_rng.script = Bytes(k.c->nb * (1 + s.below(2)), 0); break; case 1: g_rng.script = Bytes(k.c->nb * (1 + s.below(3)), 0xff); break; default: g_rng.script = Bytes(k.c->nb, 0); g_rng.script.back() = uint8_t(1 + s.below(3)); }
        label("scripted nonce");
    }
    Bytes sig; size_t n = 0;
    size_t size = (size_t)EVP_PKEY_get_size(e);
    REQUIRE(size == der::oct(Bytes(2 * k.c->nb)).size(), "advertised size %zu for an order of %d bytes", size, k.c->nb);
    REQUIRE(EVP_PKEY_get_bits(e) == k.c->m, "advertised bits %d, expected %d", EVP_PKEY_get_bits(e), k.c->m);
    size_t cap = size + (s.flip() ? s.below(40) : 0);
    note("%s tbs=%s", describe(k).c_str(), hex(tbs, 40).c_str());
    int r = do_sign(e, tbs, cap, &sig, &n);
    REQUIRE(r == 1, "signing failed: %s (%s, tbs %s)", err_text().c_str(), describe(k).c_str(), hex(tbs).c_str());
    require_valid(k, tbs, sig, "sign");
    PKey p = eng_pub(k);
    REQUIRE(do_verify(p, tbs, sig) == 1, "own signature rejected: %s tbs %s", describe(k).c_str(), hex(tbs).c_str());
    REQUIRE(do_verify(e, tbs, sig) == 1, "own signature rejected by the private key: %s", describe(k).c_str());
    checked(2); nontrivial();
    label(k.c->named >= 0 ? "named curve" : "explicit curve"); label(k.le ? "LE" : "BE");
}

// does any nonce lead to a signature? (on a tiny curve there may be none)
static bool signable(const RefKey& k, const Bytes& tbs)
{
    if (!k.c->toy) return true;
    unsigned ord = (unsigned)BN_get_word(k.c->N);
    Bn x(BN_new());
    for (unsigned i = 1; i < ord; ++i) { Sig g; BN_set_word(x, i); if (sign(k, tbs, x, &g)) return true; }
    return false;
}
// small curves: nonces that force a retry (x = 0, r = 0, s = 0, e = 0) are frequent, so is every boundary of the order
SCENARIO("P05", sign_small_curves, 60000, 1500000, FUZZABLE, "at least one nonce drawn had to be thrown away")
{
    RefKey k = gen_key(s, 2);
    PKey e = eng_priv(k);
    g_rng.reset(s.bits(3));
    Bytes tbs = gen_tbs(s, *k.c), sig; size_t n = 0;
    // at least one nonce must lead to a signature, otherwise the key cannot sign this value at all
    unsigned ord = (unsigned)BN_get_word(k.c->N);
    Bn x(BN_new());
    if (!signable(k, tbs)) { label("no signature exists"); throw Discard(); }
    int r = do_sign(e, tbs, 64, &sig, &n);
    note("%s tbs=%s draws=%llu", describe(k).c_str(), hex(tbs, 20).c_str(), (unsigned long long)g_rng.calls);
    REQUIRE(r == 1, "signing failed although signatures exist: %s tbs %s: %s", describe(k).c_str(), hex(tbs).c_str(), err_text().c_str());
    require_valid(k, tbs, sig, "sign");
    // the nonce behind it is s - d r mod n; signing with that nonce must reproduce it
    Sig got = split(k, sig, "sign"); bool some = false;
    {
        BnCtx ctx(BN_CTX_new()); Bn S(b2bn(got.s)), R(b2bn(got.r)), d(b2bn(k.d)); Sig g;
        BN_mod_mul(d, d, R, k.c->N, ctx); BN_mod_sub(x, S, d, k.c->N, ctx);
        some = !BN_is_zero(x) && sign(k, tbs, x, &g) && g.s == got.s && g.r == got.r;
    }
    REQUIRE(some, "no nonce in [1, n-1] gives this signature");
    PKey p = eng_pub(k);
    REQUIRE(do_verify(p, tbs, sig) == 1, "own signature rejected: %s", describe(k).c_str());
    checked(2);
    nontrivial();
    label(ord < 20 ? "order<20" : ord < 300 ? "order<300" : "order>=300");
}

SCENARIO("P05", sign_faults, 12000, 200000, 0, "the random source fails at a chosen call, or the buffer is too small")
{
    RefKey k = gen_key(s, 1);
    PKey e = eng_priv(k);
    Bytes tbs = s.noise(32), sig; size_t n = 0;
    size_t size = (size_t)EVP_PKEY_get_size(e);
    g_rng.reset(s.bits(2));
    nontrivial();
    switch (s.below(3))
    {
        case 0: // failing source
        {
            int at = (int)s.below(4);
            g_rng.fail_from = at;
            int r = do_sign(e, tbs, size, &sig, &n);
            note("%s source fails at call %d -> %d", describe(k).c_str(), at, r);
            bool failed = g_rng.failed;
            g_rng.fail_from = -1; // the reference needs the source as well (blinding inside OpenSSL)
            if (failed && r == 1 && at == 0) FAIL("signing succeeded although the random source delivered nothing (%s)", describe(k).c_str());
            if (r == 1) require_valid(k, tbs, sig, "sign with a failing source");
            label(r == 1 ? "source failed: still valid" : "source failed: refused");
            break;
        }
        case 1: // buffer too small
        {
            size_t cap = s.below(size);
            int r = do_sign(e, tbs, cap, &sig, &n);
            note("%s buffer %zu of %zu -> %d", describe(k).c_str(), cap, size, r);
            REQUIRE(r <= 0, "signing into a buffer of %zu bytes reported success (needs %zu)", cap, size);
            label("small buffer");
            break;
        }
        default: // size query
        {
            PKeyCtx c(EVP_PKEY_CTX_new(e, g_engine));
            REQUIRE(EVP_PKEY_sign_init(c) == 1, "init");
            size_t q = s.below(300);
            REQUIRE(EVP_PKEY_sign(c, nullptr, &q, tbs.data(), tbs.size()) == 1 && q == size, "size query gives %zu, expected %zu", q, size);
            Bytes b(q); size_t l = q;
            int r = EVP_PKEY_sign(c, b.data(), &l, tbs.data(), tbs.size());
            if (r != 1 && !signable(k, tbs)) throw Discard();
            REQUIRE(r == 1 && l == size, "signing with the queried size failed");
            require_valid(k, tbs, b, "after query");
            note("%s size query", describe(k).c_str()); label("size query");
        }
    }
    checked();
}

// every signature has a nonce of its own, spread over the whole range; seen through the secret: e = s - d r mod n
SCENARIO("P05", nonce_spread, 120, 2000, 0, "every case signs a population of messages")
{
    bool toy = s.flip(); RefKey k = gen_key(s, toy ? 2 : 0); const Curve& c = *k.c;
    PKey e = eng_priv(k); g_rng.reset(s.bits(4)); bool one = s.flip(); Bytes tbs = s.noise(32);
    BnCtx ctx(BN_CTX_new());
    size_t size = (size_t)EVP_PKEY_get_size(e);
    PKeyCtx sc(EVP_PKEY_CTX_new(e, g_engine)); REQUIRE(sc && EVP_PKEY_sign_init(sc) == 1, "sign init");
    auto nonce = [&](int i) -> Bytes
    {
        Bytes b(size); size_t l = size;
        if (i && i % 7 == 0) { sc.reset(EVP_PKEY_CTX_new(e, g_engine)); REQUIRE(sc && EVP_PKEY_sign_init(sc) == 1, "sign init"); }
        REQUIRE(EVP_PKEY_sign(sc, b.data(), &l, tbs.data(), tbs.size()) == 1, "signing failed: %s", err_text().c_str());
        Sig g = split(k, b, "sign"); Bn S(b2bn(g.s)), R(b2bn(g.r)), d(b2bn(k.d)), x(BN_new());
        BN_mod_mul(d, d, R, c.N, ctx); BN_mod_sub(x, S, d, c.N, ctx);
        if (!one) tbs[i % 32] += 1;
        return bn2b(x, c.nb);
    };
    nontrivial();
    if (toy)
    {
        unsigned n = (unsigned)BN_get_word(c.N); if (n > 300) throw Discard();
        one = true; std::vector<char> ok(n); unsigned good = 0; Bn x(BN_new());
        for (unsigned i = 1; i < n; ++i) { Sig g; BN_set_word(x, i); ok[i] = sign(k, tbs, x, &g); good += ok[i]; }
        if (good < 3) throw Discard();
        unsigned N = 40 * good; std::vector<unsigned> cnt(n);
        for (unsigned i = 0; i < N; ++i) { Bytes b = nonce((int)i); unsigned v = 0; for (auto y : b) v = v << 8 | y; REQUIRE(v && v < n && ok[v], "signature with the impossible nonce %u", v); ++cnt[v]; }
        double ex = N / double(good), chi = 0; unsigned missing = 0;
        for (unsigned i = 1; i < n; ++i) if (ok[i]) { chi += (cnt[i] - ex) * (cnt[i] - ex) / ex; missing += !cnt[i]; }
        double df = good - 1;
        note("%s order %u: %u signatures, %u usable nonces, chi2 %.1f", c.name.c_str(), n, N, good, chi);
        REQUIRE(!missing, "%u of %u usable nonces never come up in %u signatures on %s", missing, good, N, c.name.c_str());
        REQUIRE(chi < df + 12 * sqrt(2 * df) + 30, "nonces are not spread over [1, n-1] on %s: chi2 %.1f with %.0f degrees of freedom", c.name.c_str(), chi, df);
        label("small"); checked(N);
    }
    else
    {
        int N = 72, bits = BN_num_bits(c.N) - 2; std::vector<int> ones(bits); std::set<Bytes> seen;
        for (int i = 0; i < N; ++i)
        {
            Bytes b = nonce(i); Bn v(b2bn(b));
            REQUIRE(seen.insert(b).second, "two signatures of one key share a nonce (%s)", describe(k).c_str());
            for (int j = 0; j < bits; ++j) ones[j] += BN_is_bit_set(v, j);
        }
        for (int j = 0; j < bits; ++j) REQUIRE(ones[j] > 4 && ones[j] < N - 4, "bit %d of the nonce is set in %d of %d signatures on %s", j, ones[j], N, c.name.c_str());
        note("%s: %d signatures, %s message", c.name.c_str(), N, one ? "one" : "changing"); label("large"); checked(N);
    }
}

// ---- P06
static Bytes mutate_sig(Src& s, const RefKey& k, const Bytes& sig, std::string* how)
{
    Bytes v(sig.end() - 2 * k.c->nb, sig.end());
    Bytes be = k.le ? rev(v) : v;
    size_t nb = k.c->nb;
    Bytes S(be.begin(), be.begin() + nb), R(be.begin() + nb, be.end());
    BnCtx ctx(BN_CTX_new());
    auto join = [&](const Bytes& a, const Bytes& b) { Bytes t = a; t.insert(t.end(), b.begin(), b.end()); return k.le ? rev(t) : t; };
    auto pad = [&](const Bytes& a, size_t n) { Bytes t(n - a.size(), 0); t.insert(t.end(), a.begin(), a.end()); return t; };
    auto plus = [&](const Bytes& a, const BIGNUM* q, size_t n, bool neg) { Bn x(b2bn(a)); if (neg) BN_sub(x, q, x); else BN_add(x, x, q); return BN_num_bytes(x) <= (int)n ? bn2b(x, n) : a; };
    bool wrap = !s.chance(60);
    Bytes r;
    switch (s.below(18))
    {
        case 0: *how = "unchanged"; r = v; break;
        case 1: *how = "bit flipped"; r = v; r[s.below(r.size())] ^= uint8_t(1 << s.below(8)); break;
        case 2: *how = "s=0"; r = join(Bytes(nb, 0), R); break;
        case 3: *how = "r=0"; r = join(S, Bytes(nb, 0)); break;
        case 4: *how = "s+n"; r = join(plus(S, k.c->N, nb, false), R); break;
        case 5: *how = "r+n"; r = join(S, plus(R, k.c->N, nb, false)); break;
        case 6: *how = "n-s"; r = join(plus(S, k.c->N, nb, true), R); break;
        case 7: *how = "n-r"; r = join(S, plus(R, k.c->N, nb, true)); break;
        case 8: *how = "swapped"; r = join(R, S); break;
        case 9: *how = "reversed"; r = rev(v); break;
        case 10: { size_t x = 1 + s.below(8); if (s.chance(12)) x += s.below(s.flip() ? 400 : 70000); *how = "halves padded with zeros"; r = join(pad(S, nb + x), pad(R, nb + x)); break; }
        case 11: { size_t x = 1 + s.below(4); *how = "padded s+n"; r = join(plus(pad(S, nb + x), k.c->N, nb + x, false), pad(R, nb + x)); break; }
        case 12: { size_t x = 1 + s.below(4); *how = "padded r+n"; r = join(pad(S, nb + x), plus(pad(R, nb + x), k.c->N, nb + x, false)); break; }
        case 13: *how = "truncated"; r = Bytes(v.begin(), v.begin() + s.below(v.size())); break;
        case 14: *how = "extended"; r = v; { size_t x = 1 + s.below(6); Bytes t = s.blob(x); r.insert(r.end(), t.begin(), t.end()); } break;
        case 15: *how = "s=n or r=n"; r = s.flip() ? join(bn2b(k.c->N, nb), R) : join(S, bn2b(k.c->N, nb)); break;
        case 16: { *how = "shortened halves"; size_t i = 0; while (i + 1 < nb && !S[i] && !R[i]) ++i; if (!i && nb > 1) i = 1; r = join(Bytes(S.begin() + i, S.end()), Bytes(R.begin() + i, R.end())); break; }
        default: *how = "random"; r = s.noise(v.size());
    }
    if (wrap) return der::oct(r);
    *how += " bare";
    return r;
}
static Bytes ref_sign_any(Src& s, const RefKey& k, const Bytes& tbs)
{
    Sig g; 
    for (int i = 0; i < 400; ++i)
    {
        Bn e(b2bn(s.noise(k.c->nb))); BnCtx ctx(BN_CTX_new()); BN_mod(e, e, k.c->N, ctx);
        if (sign(k, tbs, e, &g)) return der::oct(sig_raw(k, g));
        if (i > 200 && k.c->toy) break;
    }
    throw Discard();
}
SCENARIO("P06", verify_decides, 12000, 250000, FUZZABLE, "the candidate differs from the genuine signature of that message and key")
{
    RefKey k = gen_key(s, 1);
    PKey p = eng_pub(k, s.flip());
    Bytes tbs = gen_tbs(s, *k.c);
    Bytes good = ref_sign_any(s, k, tbs);
    std::string how; Bytes cand = mutate_sig(s, k, good, &how), t2 = tbs;
    if (s.chance(50))
    {
        switch (s.below(4))
        {
            case 0: if (!t2.empty()) t2[s.below(t2.size())] ^= uint8_t(1 << s.below(8)); break;
            case 1: t2.push_back(uint8_t(s.below(3))); break;
            case 2: if (!t2.empty()) t2.pop_back(); break;
            default: t2 = rev(t2);
        }
        how += ", message changed";
    }
    RefKey other;
    bool otherkey = s.chance(30);
    if (otherkey) { other = clone(k); set_secret(other, gen_secret(s, *k.c)); p = eng_pub(other); how += ", other key"; }
    const RefKey& kk = otherkey ? other : k;
    bool want = verify_bytes(kk, t2, cand);
    // the same key has just accepted the genuine signature
    bool before = !otherkey && s.chance(90);
    if (before) { int g = do_verify(p, tbs, good); REQUIRE((g == 1) == verify_bytes(k, tbs, good), "verification rejects a genuine signature: %s; tbs %s, signature %s", describe(k).c_str(), hex(tbs).c_str(), hex(good).c_str()); how += ", after the genuine one"; }
    int got = do_verify(p, t2, cand);
    note("%s %s -> %s", describe(k).c_str(), how.c_str(), want ? "accept" : "reject");
    REQUIRE((got == 1) == want, "verification %s, expected %s: %s; %s; tbs %s, signature %s", got == 1 ? "accepts" : "rejects", want ? "accept" : "reject", describe(kk).c_str(), how.c_str(), hex(t2).c_str(), hex(cand).c_str());
    checked();
    if (cand != good || t2 != tbs || otherkey) nontrivial();
    label(want ? "accept" : "reject");
    label(before ? "after the genuine one" : how.c_str());
}
// small curves: every (s, r) in a window including 0 and values beyond the order
SCENARIO("P06", verify_small_exhaustive, 500, 20000, 0, "all pairs (s, r) of a window on a small curve")
{
    RefKey k = gen_key(s, 2);
    PKey p = eng_pub(k);
    Bytes tbs = gen_tbs(s, *k.c);
    unsigned ord = (unsigned)BN_get_word(k.c->N), top = k.c->nb == 1 ? 255 : 65535;
    unsigned lo = ord <= 24 ? 0 : (unsigned)s.below(ord + 4), w = 22;
    if (s.flip()) lo = 0;
    unsigned rlo = ord <= 24 ? 0 : (unsigned)s.below(ord + 4); if (s.flip()) rlo = 0;
    unsigned acc = 0;
    for (unsigned i = lo; i < lo + w && i <= top; ++i)
        for (unsigned j = rlo; j < rlo + w && j <= top; ++j)
        {
            Bn a(BN_new()), b(BN_new()); BN_set_word(a, i); BN_set_word(b, j);
            Sig g{bn2b(a, k.c->nb), bn2b(b, k.c->nb)};
            bool want = verify(*k.c, k.Q, tbs, a, b);
            Bytes sg = sig_raw(k, g);
            int got = do_verify(p, tbs, der::oct(sg));
            REQUIRE((got == 1) == want, "s=%u r=%u on %s (order %u): %d expected %d, tbs %s", i, j, describe(k).c_str(), ord, got, want, hex(tbs).c_str());
            acc += want; checked();
        }
    note("%s order=%u window s>=%u r>=%u accepted=%u", describe(k).c_str(), ord, lo, rlo, acc);
    nontrivial();
    label(acc ? "some accepted" : "none accepted");
}
SCENARIO("P06", verify_arbitrary_bytes, 20000, 400000, FUZZABLE, "candidate longer than two bytes")
{
    RefKey k = gen_key(s, 1);
    PKey p = eng_pub(k);
    Bytes tbs = s.blob(s.len(70)), cand = s.flip() ? s.raw(s.len(40)) : s.blob(s.len(200));
    if (s.flip()) cand = der::oct(cand);
    if (s.chance(40) && cand.size() > 1) cand[1] = s.byte();
    bool want = verify_bytes(k, tbs, cand);
    int got = do_verify(p, tbs, cand);
    note("%s cand=%s", describe(k).c_str(), hex(cand, 30).c_str());
    REQUIRE((got == 1) == want, "arbitrary candidate %s: %d expected %d (%s, tbs %s)", hex(cand).c_str(), got, want, describe(k).c_str(), hex(tbs).c_str());
    checked(); if (cand.size() > 2) nontrivial();
}
// incomplete keys and wrong operations never crash
// ---- P07
static int digest_sign(EVP_PKEY* k, const Bytes& msg, const std::vector<size_t>& parts, Bytes* sig, bool explicitMd)
{
    MdCtx c(EVP_MD_CTX_new());
    if (EVP_DigestSignInit(c, nullptr, explicitMd ? MD() : nullptr, g_engine, k) != 1) return -1;
    size_t at = 0;
    for (size_t n : parts) { if (EVP_DigestSignUpdate(c, msg.data() + at, n) != 1) return -2; at += n; }
    size_t l = 0;
    if (EVP_DigestSignFinal(c, nullptr, &l) != 1) return -3;
    sig->assign(l, 0);
    if (EVP_DigestSignFinal(c, sig->data(), &l) != 1) return -4;
    sig->resize(l);
    return 1;
}
static int digest_verify(EVP_PKEY* k, const Bytes& msg, const std::vector<size_t>& parts, const Bytes& sig, bool explicitMd)
{
    MdCtx c(EVP_MD_CTX_new());
    REQUIRE(EVP_DigestVerifyInit(c, nullptr, explicitMd ? MD() : nullptr, g_engine, k) == 1, "verify init failed: %s", err_text().c_str());
    size_t at = 0;
    for (size_t n : parts) { REQUIRE(EVP_DigestVerifyUpdate(c, msg.data() + at, n) == 1, "verify update failed"); at += n; }
    int r = EVP_DigestVerifyFinal(c, sig.data(), sig.size());
    ERR_clear_error();
    return r;
}
SCENARIO("P07", digest_sign_verify, 5500, 160000, 0, "non-default table or a message longer than one block")
{
    RefKey k = gen_key(s, 0);
    PKey e = eng_priv(k, s.flip()), p = eng_pub(k, s.flip());
    Bytes msg = s.blob(s.len(s.chance(20) ? 3000 : 120));
    g_rng.reset(s.bits(2));
    Rng saved = g_rng;
    Bytes sig; bool xmd = s.flip();
    auto parts = gen_cuts(s, msg.size());
    int r = digest_sign(e, msg, parts, &sig, xmd);
    note("%s msg=%zu parts=%zu", describe(k).c_str(), msg.size(), parts.size());
    REQUIRE(r == 1, "digest-sign failed at stage %d: %s (%s)", r, err_text().c_str(), describe(k).c_str());
    Bytes h = ref::hash(k.sbox(), msg);
    require_valid(k, h, sig, "digest-sign (hash with the key's table)");
    REQUIRE(digest_verify(p, msg, gen_cuts(s, msg.size()), sig, s.flip()) == 1, "signature over %zu bytes rejected under the public half (%s)", msg.size(), describe(k).c_str());
    // another message, another table: rejected (unless the hashes agree on the field bits)
    Bytes m2 = msg; if (m2.empty() || s.flip()) m2.push_back(0); else m2[s.below(m2.size())] ^= uint8_t(1 << s.below(8));
    bool w2 = verify_bytes(k, ref::hash(k.sbox(), m2), sig);
    REQUIRE((digest_verify(p, m2, {m2.size()}, sig, false) == 1) == w2, "changed message accepted");
    RefKey o = clone(k); o.table = gen_table(s);
    PKey po = eng_pub(o);
    bool w3 = verify_bytes(o, ref::hash(o.sbox(), msg), sig);
    REQUIRE((digest_verify(po, msg, {msg.size()}, sig, true) == 1) == w3, "verification under a key with table %s (signed with %s) disagrees with the rule", hex(o.table, 8).c_str(), hex(k.table, 8).c_str());
    label(w3 ? "same effective table" : "other table rejects");
    // the other byte order with the same randomness gives the reversed components
    RefKey be = clone(k); be.le = !k.le;
    PKey eb = eng_priv(be);
    g_rng = saved;
    Bytes sig2;
    REQUIRE(digest_sign(eb, msg, {msg.size()}, &sig2, true) == 1, "digest-sign with the other byte order failed");
    require_valid(be, h, sig2, "other byte order");
    size_t hd = sig.size() - 2 * k.c->nb;
    Bytes v1(sig.begin() + hd, sig.end()), v2(sig2.begin() + hd, sig2.end());
    REQUIRE(v1 == rev(v2), "%s signature %s is not the reverse of %s", k.le ? "LE" : "BE", hex(v1).c_str(), hex(v2).c_str());
    checked(5);
    if (!k.default_table() || msg.size() > 32) nontrivial();
    label(k.le ? "LE" : "BE"); label(k.default_table() ? "default table" : "custom table");
}
SCENARIO("P07", sign_contexts, 4500, 120000, 0, "signing contexts of keys with different tables interleaved, copied or reused")
{
    RefKey k[3]; PKey e[3]; MdCtx c[4]; Bytes msg[4]; int of[4] = {-1, -1, -1, -1};
    for (int i = 0; i < 3; ++i) { k[i] = gen_key(s, 0); e[i] = eng_priv(k[i]); }
    for (auto& x : c) x.reset(EVP_MD_CTX_new());
    g_rng.reset(s.bits(2));
    int sigs = 0, copies = 0; std::string tr; char t[40];
    int ops = 5 + (int)s.below(25);
    for (int i = 0; i < ops; ++i)
    {
        int a = (int)s.below(4), b = (int)s.below(4); t[0] = 0;
        switch (s.below(6))
        {
            case 0: case 1:
            {
                c[a].reset(EVP_MD_CTX_new());   // OpenSSL keeps the key of a used context
                of[a] = (int)s.below(3); msg[a].clear();
                REQUIRE(EVP_DigestSignInit(c[a], nullptr, s.flip() ? MD() : nullptr, g_engine, e[of[a]]) == 1, "sign init failed: %s", err_text().c_str());
                snprintf(t, sizeof t, "init%d(key%d) ", a, of[a]); break;
            }
            case 2: case 3:
            {
                if (of[a] < 0) break;
                Bytes d = s.blob(s.len(60));
                REQUIRE(EVP_DigestSignUpdate(c[a], d.data(), d.size()) == 1, "update failed");
                msg[a].insert(msg[a].end(), d.begin(), d.end()); snprintf(t, sizeof t, "upd%d ", a); break;
            }
            case 4:
                if (of[a] < 0 || a == b) break;
                REQUIRE(EVP_MD_CTX_copy_ex(c[b], c[a]) == 1, "copying a signing context failed: %s", err_text().c_str());
                of[b] = of[a]; msg[b] = msg[a]; ++copies; snprintf(t, sizeof t, "copy%d>%d ", a, b); break;
            default:
            {
                if (of[a] < 0) break;
                Bytes sg(200); size_t l = sg.size();
                REQUIRE(EVP_DigestSignFinal(c[a], sg.data(), &l) == 1, "final failed: %s", err_text().c_str());
                sg.resize(l);
                const RefKey& kk = k[of[a]];
                require_valid(kk, ref::hash(kk.sbox(), msg[a]), sg, "interleaved signing");
                of[a] = -1; ++sigs; snprintf(t, sizeof t, "sign%d ", a);
            }
        }
        tr += t;
    }
    note("%s", tr.c_str());
    if (sigs && copies) nontrivial();
    if (copies) label("with copy");
}

// the same cases in sequence
SCENARIO_AGAIN("P05", sign_valid, 600, 15000)
SCENARIO_AGAIN("P05", sign_small_curves, 6000, 100000)
SCENARIO_AGAIN("P06", verify_decides, 2500, 60000)
SCENARIO_AGAIN("P07", digest_sign_verify, 500, 20000)
SCENARIO_AGAIN("P07", sign_contexts, 600, 15000)
