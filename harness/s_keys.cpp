// P08-P13: key generation, encodings, comparison, curves, points, malformed input
#include "dk.h"
#include "mut.h"
#include <openssl/pem.h>
#include <openssl/pkcs12.h>
#include <map>
#include <set>
#include <cmath>
using namespace dk;

// ---- the text form: label -> value (big-endian)
static std::map<std::string, Bytes> parse_text(const std::string& t)
{
    std::map<std::string, Bytes> m; std::string cur; size_t at = 0;
    while (at < t.size())
    {
        size_t e = t.find('\n', at); if (e == std::string::npos) e = t.size();
        std::string l = t.substr(at, e - at); at = e + 1;
        size_t ind = l.find_first_not_of(' '); if (ind == std::string::npos) continue;
        std::string body = l.substr(ind);
        bool hexline = body.size() >= 2 && body.find_first_not_of("0123456789abcdef:") == std::string::npos && (body.size() == 2 || body[2] == ':');
        if (hexline && !cur.empty()) { for (size_t i = 0; i + 1 < body.size(); i += 3) m[cur].push_back((uint8_t)strtoul(body.substr(i, 2).c_str(), nullptr, 16)); continue; }
        size_t c = body.find(':'); if (c == std::string::npos) { cur.clear(); continue; }
        cur = body.substr(0, c); size_t x = body.find("(0x", c);
        m[cur].clear();
        if (x != std::string::npos) { std::string h = body.substr(x + 3); h = h.substr(0, h.find(')')); if (h.size() % 2) h = "0" + h; m[cur] = unhex(h); cur.clear(); }
    }
    return m;
}
static Bytes strip(Bytes b) { size_t i = 0; while (i < b.size() && !b[i]) ++i; return Bytes(b.begin() + i, b.end()); }
static int print_key(EVP_PKEY* k, int what, std::string* out)
{
    Bio b(BIO_new(BIO_s_mem()));
    int r = what == 0 ? EVP_PKEY_print_params(b, k, 0, nullptr) : what == 1 ? EVP_PKEY_print_public(b, k, 0, nullptr) : EVP_PKEY_print_private(b, k, 0, nullptr);
    char* p; long n = BIO_get_mem_data(b, &p); out->assign(p, p + n);
    ERR_clear_error();
    return r;
}
static void require_printed_curve(std::map<std::string, Bytes>& m, const Curve& c, const char* what)
{
    auto cmp = [&](const char* l, const Bytes& want) { auto i = m.find(l); if (i == m.end()) return; REQUIRE(strip(i->second) == strip(want), "%s: %s of %s is %s, expected %s", what, l, c.name.c_str(), hex(i->second).c_str(), hex(want).c_str()); checked(); };
    cmp("Polynomial", bn2b(c.P, c.fb + 1)); cmp("A", Bytes{uint8_t(c.a)}); cmp("B", bn2b(c.B, c.fb)); cmp("Order", c.n);
    Bytes g{4}; g.insert(g.end(), c.gx.begin(), c.gx.end()); g.insert(g.end(), c.gy.begin(), c.gy.end());
    cmp("Generator (uncompressed)", g);
}
static void require_printed_point(EVP_PKEY* k, const Curve& c, const EC_POINT* q, const char* what)
{
    std::string t; 
    if (print_key(k, 1, &t) != 1) FAIL("%s: the public key cannot be printed", what);
    auto m = parse_text(t);
    auto i = m.find("pub"); if (i == m.end()) return;
    Bytes p = xy(c, q), w{4}; w.insert(w.end(), p.begin(), p.end());
    REQUIRE(i->second == w, "%s: printed point %s expected %s", what, hex(i->second).c_str(), hex(w).c_str());
    checked();
}
// both directions must agree
static int eq(EVP_PKEY* a, EVP_PKEY* b) { int r = EVP_PKEY_eq(a, b), q = EVP_PKEY_eq(b, a); REQUIRE((r == 1) == (q == 1), "comparison is not symmetric (%d/%d)", r, q); ERR_clear_error(); return r == 1; }
static RefKey gen_pub(Src& s, const Curve& c) { RefKey k; k.c = &c; k.le = s.flip(); if (s.below(3)) k.table = gen_table(s); k.Q.reset(EC_POINT_new(c.grp)); if (!gen_point(s, c, k.Q)) throw Discard(); return k; }

// ------------------------------------------------------------------ P08
// the secret inside a generated key, nb bytes; fails unless it is in [1, n-1]
static Bytes secret_of(EVP_PKEY* k, const Curve& c)
{
    Bytes p8 = out_pkcs8(k); std::vector<mut::T> t; mut::parse(p8, &t);
    REQUIRE(t.size() == 1 && t[0].kids.size() >= 3, "PKCS#8 %s has no secret", hex(p8).c_str());
    Bytes d = strip(rev(t[0].kids[2].val));
    REQUIRE((int)d.size() <= c.nb, "secret %s is longer than the order", hex(d).c_str());
    d.insert(d.begin(), c.nb - d.size(), 0);
    Bn b(b2bn(d)); REQUIRE(!BN_is_zero(b) && BN_cmp(b, c.N) < 0, "secret %s is not in [1, n-1] on %s", hex(d).c_str(), c.name.c_str());
    return d;
}
static PKey plain_keygen(const Curve& c, bool le)
{
    PKeyCtx g(EVP_PKEY_CTX_new_id(OBJ_txt2nid(le ? "dstu4145le" : "dstu4145be"), g_engine));
    REQUIRE(g && EVP_PKEY_keygen_init(g) == 1 && EVP_PKEY_CTX_ctrl(g, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE_PKEY, 0, c.grp) == 1, "curve refused");
    EVP_PKEY* o = nullptr; REQUIRE(EVP_PKEY_keygen(g, &o) == 1, "generation failed: %s", err_text().c_str());
    return PKey(o);
}
// secrets fill the whole range: every value on a small curve, every bit on a large one
SCENARIO("P08", keygen_spread, 160, 2400, 0, "every case generates a population of keys")
{
    bool toy = s.flip(); const Curve& c = gen_curve(s, toy ? 2 : 0);
    bool le = s.flip(); g_rng.reset(s.bits(4));
    nontrivial();
    if (toy)
    {
        unsigned n = (unsigned)BN_get_word(c.N); if (n > 300) throw Discard();
        unsigned N = 40 * n; std::vector<unsigned> cnt(n);
        PKeyCtx g(EVP_PKEY_CTX_new_id(OBJ_txt2nid(le ? "dstu4145le" : "dstu4145be"), g_engine));
        REQUIRE(g && EVP_PKEY_keygen_init(g) == 1 && EVP_PKEY_CTX_ctrl(g, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE_PKEY, 0, c.grp) == 1, "curve refused");
        for (unsigned i = 0; i < N; ++i)
        {
            EVP_PKEY* o = nullptr; REQUIRE(EVP_PKEY_keygen(g, &o) == 1, "generation failed: %s", err_text().c_str());
            PKey k(o); Bytes d = secret_of(k, c); unsigned v = 0; for (auto x : d) v = v << 8 | x; ++cnt[v];
        }
        double e = N / double(n - 1), chi = 0; unsigned missing = 0;
        for (unsigned i = 1; i < n; ++i) { chi += (cnt[i] - e) * (cnt[i] - e) / e; missing += !cnt[i]; }
        double df = n - 2;
        note("%s order %u: %u keys, chi2 %.1f of %.0f, %u never", c.name.c_str(), n, N, chi, df, missing);
        REQUIRE(!missing, "%u of %u secrets never come up in %u generations on %s", missing, n - 1, N, c.name.c_str());
        REQUIRE(chi < df + 12 * sqrt(2 * df) + 30, "secrets are not spread over [1, n-1] on %s: chi2 %.1f with %.0f degrees of freedom", c.name.c_str(), chi, df);
        label("small"); checked(N);
    }
    else
    {
        int N = 72; int bits = BN_num_bits(c.N) - 2; std::vector<int> ones(bits); std::set<Bytes> seen;
        for (int i = 0; i < N; ++i)
        {
            PKey k = plain_keygen(c, le); Bytes d = secret_of(k, c); Bn b(b2bn(d));
            REQUIRE(seen.insert(d).second, "secret %s generated twice", hex(d).c_str());
            for (int j = 0; j < bits; ++j) ones[j] += BN_is_bit_set(b, j);
        }
        for (int j = 0; j < bits; ++j) REQUIRE(ones[j] > 4 && ones[j] < N - 4, "bit %d of the secret is set in %d of %d generated keys on %s", j, ones[j], N, c.name.c_str());
        note("%s: %d keys", c.name.c_str(), N); label("large"); checked(N);
    }
}
struct GenCtx { PKeyCtx c; bool live = false, le = true; const Curve* cv = nullptr; Bytes table; };
SCENARIO("P08", keygen_histories, 20000, 400000, FUZZABLE, "at least one accepted setting and one generated key")
{
    GenCtx x[3]; std::string tr; int gens = 0, sets = 0;
    int ops = 3 + (int)s.below(14);
    for (int i = 0; i < ops; ++i)
    {
        int a = (int)s.below(3), b = (int)s.below(3); char t[120]; t[0] = 0;
        GenCtx& g = x[a];
        unsigned op = (unsigned)s.below(11);
        if (!g.live) op = 0;
        switch (op)
        {
            case 0:
            {
                g.le = s.flip(); g.cv = nullptr; g.table.clear();
                g.c.reset(EVP_PKEY_CTX_new_id(OBJ_txt2nid(g.le ? "dstu4145le" : "dstu4145be"), g_engine));
                REQUIRE(g.c && EVP_PKEY_keygen_init(g.c) == 1, "key generation context refused: %s", err_text().c_str());
                g.live = true; snprintf(t, sizeof t, "new%d%s ", a, g.le ? "le" : "be"); break;
            }
            case 1: // curve by name
            {
                int n = (int)s.below(10);
                REQUIRE(EVP_PKEY_CTX_ctrl_str(g.c, "curve", curve_sn(n)) == 1, "curve name %s refused", curve_sn(n));
                g.cv = &named(n); ++sets; snprintf(t, sizeof t, "curve%d=%s ", a, curve_sn(n)); break;
            }
            case 2: case 3: // curve as a group; its cofactor is not part of a DSTU curve
            {
                const Curve& c = gen_curve(s, 1);
                int how = (int)s.below(4);
                Group gr(group_with_cofactor(c, how));
                if (!gr) break;
                REQUIRE(EVP_PKEY_CTX_ctrl(g.c, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE_PKEY, 0, gr.get()) == 1, "curve %s refused", c.name.c_str());
                g.cv = &c; ++sets; snprintf(t, sizeof t, "group%d=%s/%d ", a, c.name.c_str(), how); break;
            }
            case 4: // table, binary
            {
                Bytes tb = gen_table(s);
                REQUIRE(EVP_PKEY_CTX_ctrl(g.c, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX_PKEY, 64, tb.data()) == 1, "table refused");
                memset(tb.data(), 0xee, 0); g.table = tb; ++sets; snprintf(t, sizeof t, "table%d ", a); break;
            }
            case 5: // table, hexadecimal
            {
                Bytes tb = gen_table(s); if (s.chance(40)) tb[0] = 0;
                bool zero = true; for (auto v : tb) zero = zero && !v;
                if (zero) tb[63] = 1;
                std::string h = hex(tb);
                if (s.flip()) for (auto& ch : h) ch = (char)toupper(ch);
                REQUIRE(EVP_PKEY_CTX_ctrl_str(g.c, "sbox", h.c_str()) == 1, "table string %s refused", h.c_str());
                g.table = tb; ++sets; snprintf(t, sizeof t, "hextable%d ", a); break;
            }
            case 6: // invalid settings change nothing
            {
                int k = (int)s.below(17); Bytes tb = s.noise(66); std::string h = hex(Bytes(tb.begin(), tb.begin() + 64));
                int r = -77;
                switch (k)
                {
                    case 0: r = EVP_PKEY_CTX_ctrl_str(g.c, "curve", "uacurve10"); break;
                    case 1: r = EVP_PKEY_CTX_ctrl_str(g.c, "curve", "prime256v1"); break;
                    case 2: r = EVP_PKEY_CTX_ctrl_str(g.c, "curve", ""); break;
                    case 3: r = EVP_PKEY_CTX_ctrl_str(g.c, "curve", "sect233r1"); break;
                    case 4: r = EVP_PKEY_CTX_ctrl_str(g.c, "curve", "dstu4145le"); break;
                    case 5: r = EVP_PKEY_CTX_ctrl_str(g.c, "sbox", h.substr(0, 127).c_str()); break;
                    case 6: r = EVP_PKEY_CTX_ctrl_str(g.c, "sbox", h.substr(0, 126).c_str()); break;
                    case 7: r = EVP_PKEY_CTX_ctrl_str(g.c, "sbox", (h + "0").c_str()); break;
                    case 8: r = EVP_PKEY_CTX_ctrl_str(g.c, "sbox", (h + "00").c_str()); break;
                    case 9: h[s.below(128)] = 'g'; r = EVP_PKEY_CTX_ctrl_str(g.c, "sbox", h.c_str()); break;
                    case 10: r = EVP_PKEY_CTX_ctrl_str(g.c, "sbox", (h + (s.flip() ? "xyz" : " ")).c_str()); break;
                    case 11: h[0] = '-'; r = EVP_PKEY_CTX_ctrl_str(g.c, "sbox", h.c_str()); break;
                    case 12: r = EVP_PKEY_CTX_ctrl_str(g.c, "curve", s.flip() ? "uacurve6 " : "UACURVE6"); break;
                    case 13: { int l[] = {0, 32, 63, 65, 128, -1}; r = EVP_PKEY_CTX_ctrl(g.c, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX_PKEY, l[s.below(6)], tb.data()); break; }
                    case 14: r = EVP_PKEY_CTX_ctrl(g.c, -1, EVP_PKEY_OP_KEYGEN, s.flip() ? CTRL_SBOX_PKEY : CTRL_CURVE_PKEY, 64, nullptr); break;
                    case 15: // controls of other algorithms
                    {
                        static const int cmds[] = {EVP_PKEY_CTRL_PEER_KEY, EVP_PKEY_CTRL_SET_MAC_KEY, EVP_PKEY_CTRL_CIPHER, EVP_PKEY_CTRL_SET_IV, EVP_PKEY_ALG_CTRL, EVP_PKEY_ALG_CTRL + 5, EVP_PKEY_ALG_CTRL + 6, EVP_PKEY_ALG_CTRL + 17, EVP_PKEY_ALG_CTRL + 300};
                        r = EVP_PKEY_CTX_ctrl(g.c, -1, EVP_PKEY_OP_KEYGEN, cmds[s.below(9)], s.flip() ? 64 : 1, tb.data()); break;
                    }
                    default: r = EVP_PKEY_CTX_ctrl_str(g.c, s.flip() ? "Curve" : "table", "uacurve3");
                }
                ERR_clear_error();
                REQUIRE(r <= 0, "invalid setting %d accepted (%s)", k, tr.c_str());
                checked(); snprintf(t, sizeof t, "bad%d(%d) ", a, k); break;
            }
            case 7: // copy of the context
            {
                if (a == b) break;
                // OpenSSL 3 does not copy a context prepared for generation; prepared for signing it does
                REQUIRE(EVP_PKEY_sign_init(g.c) == 1, "context cannot be prepared for signing: %s", err_text().c_str());
                EVP_PKEY_CTX* d = EVP_PKEY_CTX_dup(g.c);
                REQUIRE(d, "copying a context failed: %s", err_text().c_str());
                REQUIRE(EVP_PKEY_keygen_init(g.c) == 1 && EVP_PKEY_keygen_init(d) == 1, "context cannot be prepared for generation again");
                x[b].c.reset(d); x[b].live = true; x[b].le = g.le; x[b].cv = g.cv; x[b].table = g.table;
                snprintf(t, sizeof t, "copy%d>%d ", a, b); break;
            }
            default: // generate
            {
                const Curve& c = g.cv ? *g.cv : named(6);
                g_rng.reset(s.bits(3));
                if (s.chance(30)) { g_rng.script = Bytes(c.nb * (1 + s.below(3)), s.flip() ? 0 : 0xff); }
                bool fail = s.chance(20); if (fail) g_rng.fail_from = (int64_t)s.below(3);
                Rng saved = g_rng;
                EVP_PKEY* o = nullptr; int r = EVP_PKEY_keygen(g.c, &o);
                PKey k(o); bool failed = g_rng.failed;
                g_rng = saved; g_rng.fail_from = -1;
                if (fail && failed)
                {
                    REQUIRE(r != 1 || saved.fail_from > 0, "a key was generated although the random source delivers nothing");
                    if (r != 1) { ERR_clear_error(); snprintf(t, sizeof t, "genfail%d ", a); break; }
                }
                REQUIRE(r == 1 && k, "generation failed on %s: %s", c.name.c_str(), err_text().c_str());
                Bytes sec = secret_of(k, c);
                RefKey w; w.c = &c; w.le = g.le; w.table = g.table; set_secret(w, sec);
                if (degenerate(c, w.Q)) throw Discard();   // small curves only: such a point has no compressed form
                Bytes p8 = out_pkcs8(k), sp = out_spki(k);
                REQUIRE(p8 == pkcs8(w), "generated key after \"%s\": PKCS#8 %s expected %s", tr.c_str(), hex(p8).c_str(), hex(pkcs8(w)).c_str());
                REQUIRE(sp == spki(w), "generated key after \"%s\": public key %s expected %s", tr.c_str(), hex(sp).c_str(), hex(spki(w)).c_str());
                PKey l = load_pub(sp);
                REQUIRE(l && eq(k, l), "generated key after \"%s\" differs from its decoded self", tr.c_str()); require_printed_point(k, c, w.Q, "generated");
                std::string txt; if (print_key(k, 0, &txt) == 1) { auto m = parse_text(txt); require_printed_curve(m, c, "generated"); }
                checked(3); ++gens; snprintf(t, sizeof t, "gen%d ", a);
            }
        }
        tr += t;
    }
    note("%s", tr.c_str());
    if (gens && sets) nontrivial();
    label(gens ? "generated" : "no key"); 
}

// ------------------------------------------------------------------ P09
// the same public key obtained by another route
static PKey by_route(Src& s, const RefKey& k, std::string* how, bool gen = true)
{
    bool secret = !k.d.empty();
    switch (s.below(!secret ? 4 : gen ? 6 : 5))
    {
        case 0: *how = "canonical"; return load_pub(spki(k));
        case 1: *how = "explicit"; return load_pub(spki(k, true));
        case 2: // the default table spelled out
        {
            Bytes t = k.table.empty() ? Bytes(ref::DEFAULT_PACKED, ref::DEFAULT_PACKED + 64) : k.table;
            *how = "table spelled out"; return load_pub(spki_with(k, params(*k.c, k.le, t, s.flip())));
        }
        case 3: // through PEM
        {
            *how = "pem"; PKey p = load_pub(spki(k)); if (!p) return p;
            Bio b(BIO_new(BIO_s_mem())); REQUIRE(PEM_write_bio_PUBKEY(b, p) == 1, "PEM output failed: %s", err_text().c_str());
            return PKey(PEM_read_bio_PUBKEY(b, nullptr, nullptr, nullptr));
        }
        case 4: *how = "private"; return load_priv(pkcs8(k, s.flip()));
        default: // generated with exactly this secret, curve and table
        {
            *how = "keygen";
            PKeyCtx c(EVP_PKEY_CTX_new_id(OBJ_txt2nid(k.le ? "dstu4145le" : "dstu4145be"), g_engine));
            REQUIRE(c && EVP_PKEY_keygen_init(c) == 1, "keygen init");
            Group g(group_with_cofactor(*k.c, (int)s.below(4)));
            Bytes t = k.table.empty() ? Bytes(ref::DEFAULT_PACKED, ref::DEFAULT_PACKED + 64) : k.table;
            if (g) REQUIRE(EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE_PKEY, 0, g.get()) == 1, "curve refused");
            else REQUIRE(EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE_PKEY, 0, k.c->grp) == 1, "curve refused");
            if (!k.table.empty() || s.flip()) REQUIRE(EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX_PKEY, 64, t.data()) == 1, "table refused");
            EVP_PKEY* o = nullptr;
            REQUIRE(EVP_PKEY_keygen(c, &o) == 1, "keygen failed");
            return PKey(o);
        }
    }
}
SCENARIO("P09", pub_roundtrip, 20000, 400000, FUZZABLE, "a custom curve, a non-default table or an explicit encoding")
{
    std::unique_ptr<TmpCurve> tc; RefKey k;
    if (s.flip()) { tc = gen_synth(s); k = gen_pub(s, tc->c); } else { k = gen_key(s, 1); if (degenerate(*k.c, k.Q)) throw Discard(); }
    std::string how; RefKey pubonly = clone(k); pubonly.d.clear();
    PKey p = by_route(s, pubonly, &how);
    note("%s by %s", describe(k).c_str(), how.c_str());
    REQUIRE(p, "%s key refused: %s (%s)", how.c_str(), err_text().c_str(), describe(k).c_str());
    Bytes o = out_spki(p), w = spki(k);
    REQUIRE(o == w, "encoding of a %s key %s: %s expected %s", how.c_str(), describe(k).c_str(), hex(o).c_str(), hex(w).c_str());
    REQUIRE(EVP_PKEY_get_base_id(p) == OBJ_txt2nid(k.le ? "dstu4145le" : "dstu4145be"), "key type changed");
    PKey q = load_pub(o);
    REQUIRE(q && eq(p, q), "the decoded key differs from the encoded one (%s)", describe(k).c_str());
    REQUIRE(out_spki(q) == o, "re-encoding differs");
    require_printed_point(p, *k.c, k.Q, "decoded");
    std::string txt; if (print_key(p, 1, &txt) == 1) { auto m = parse_text(txt); require_printed_curve(m, *k.c, "decoded"); }
    checked(4);
    if (k.c->named < 0 || !k.default_table() || how != "canonical") nontrivial();
    label(tc ? "made-up curve" : k.c->toy ? "small curve" : k.c->named >= 0 ? "named" : "custom"); label(how.c_str());
}
SCENARIO("P09", key_compare, 20000, 400000, FUZZABLE, "the two keys came by different routes or differ in something")
{
    RefKey a = gen_key(s, 0), b = clone(a);
    bool same = true; std::string diff = "same";
    switch (s.below(6))
    {
        case 0: b.le = !a.le; same = false; diff = "type"; break;
        case 1: { const Curve& c = gen_curve(s, 0); if (c.grp != a.c->grp) { b.c = &c; set_secret(b, gen_secret(s, c)); same = false; diff = "curve"; } break; }
        case 2: { Bytes t = gen_table(s); b.table = t; same = canonical_table(t) == canonical_table(a.table); diff = same ? "table absent/spelled" : "table"; break; }
        case 3: { set_secret(b, gen_secret(s, *a.c)); same = compress(*a.c, a.Q) == compress(*b.c, b.Q); diff = same ? "same" : "point"; break; }
        case 4: { EC_POINT_invert(b.c->grp, b.Q, nullptr); b.d.clear(); Bn d(b2bn(a.d)); Bn e(BN_new()); BN_sub(e, a.c->N, d); set_secret(b, bn2b(e, a.c->nb)); same = false; diff = "opposite point"; break; }
        default: break;
    }
    std::string h1, h2;
    g_rng.reset(7); Rng sv = g_rng;
    // keygen draws its own secret: both sides are then described by what was drawn
    PKey x = by_route(s, a, &h1);
    if (h1 == "keygen") { Bytes p = out_pkcs8(x); std::vector<mut::T> t; mut::parse(p, &t); Bytes d = rev(t[0].kids[2].val); bool shared = b.d == a.d && b.c == a.c; Bytes pad(a.c->nb - d.size(), 0); pad.insert(pad.end(), d.begin(), d.end()); set_secret(a, pad); if (shared) set_secret(b, pad); else if (diff == "point" || diff == "opposite point" || diff == "same") same = compress(*a.c, a.Q) == compress(*b.c, b.Q); }
    PKey y = by_route(s, b, &h2, false);
    g_rng = sv;
    note("%s %s/%s: %s", describe(a).c_str(), h1.c_str(), h2.c_str(), diff.c_str());
    REQUIRE(x && y, "key refused (%s/%s): %s", h1.c_str(), h2.c_str(), err_text().c_str());
    int r = eq(x, y);
    REQUIRE(r == (int)same, "keys differing in \"%s\" (%s vs %s, by %s and %s) compare %s", diff.c_str(), describe(a).c_str(), describe(b).c_str(), h1.c_str(), h2.c_str(), r ? "equal" : "different");
    // parameters alone
    if (a.le == b.le)
    {
        bool ps = a.c->grp == b.c->grp && canonical_table(a.table) == canonical_table(b.table);
        int pr = EVP_PKEY_parameters_eq(x, y); ERR_clear_error();
        REQUIRE((pr == 1) == ps, "parameters compare %d, expected %d (%s)", pr, ps, diff.c_str());
    }
    checked(2);
    if (h1 != h2 || diff != "same") nontrivial();
    label(diff.c_str()); label((h1 + "/" + h2).c_str());
}
// keys without a point or without anything: comparing, printing, encoding and using them never crashes
SCENARIO("P09", incomplete_keys, 6000, 100000, FUZZABLE, "at least one of the keys is incomplete")
{
    RefKey k = gen_key(s, 0);
    auto make = [&](int what) -> PKey
    {
        if (what == 0) return load_pub(spki(k));
        if (what == 1) return load_priv(pkcs8(k));
        if (what == 2) // parameters only
        {
            Bytes p = params(*k.c, k.le, k.table, s.flip()); const uint8_t* q = p.data();
            EVP_PKEY* r = d2i_KeyParams(OBJ_txt2nid(k.le ? "dstu4145le" : "dstu4145be"), nullptr, &q, (long)p.size());
            REQUIRE(r, "parameters refused: %s", err_text().c_str());
            return PKey(r);
        }
        EVP_PKEY* r = EVP_PKEY_new(); EVP_PKEY_set_type(r, OBJ_txt2nid(k.le ? "dstu4145le" : "dstu4145be"));
        return PKey(r);
    };
    int a = (int)s.below(4), b = (int)s.below(4);
    PKey x = make(a), y = make(b);
    REQUIRE(x && y, "key refused");
    note("%s: %d vs %d", describe(k).c_str(), a, b);
    int r = eq(x, y);
    if (a < 2 && b < 2) REQUIRE(r == 1, "equal keys differ");
    else if (a < 2 || b < 2) REQUIRE(r != 1, "an incomplete key equals a complete one");
    if (a == 2 && b == 2) REQUIRE(EVP_PKEY_parameters_eq(x, y) == 1, "equal parameters differ");
    ERR_clear_error();
    std::string t; bool ok;
    for (int w = 0; w < 3; ++w) print_key(x, w, &t);
    Bytes o = out_spki(x, &ok); if (a < 2) REQUIRE(ok && o == spki(k), "encoding failed"); else REQUIRE(!ok, "a key without a point was encoded: %s", hex(o).c_str());
    o = out_pkcs8(x, &ok); REQUIRE(ok == (a == 1), "private encoding of a key of kind %d: %d", a, (int)ok);
    (void)EVP_PKEY_get_size(x); (void)EVP_PKEY_get_bits(x);
    // signing needs a secret, verification a point
    PKeyCtx c(EVP_PKEY_CTX_new(x, g_engine)); uint8_t sg[300]; size_t n = sizeof sg; Bytes tbs = s.noise(32);
    if (c && EVP_PKEY_sign_init(c) == 1) { int sr = EVP_PKEY_sign(c, sg, &n, tbs.data(), 32); REQUIRE((sr == 1) == (a == 1), "signing with a key of kind %d returned %d", a, sr); }
    PKeyCtx c2(EVP_PKEY_CTX_new(x, g_engine));
    if (c2 && EVP_PKEY_verify_init(c2) == 1) { Bytes g = der::oct(s.noise(2 * k.c->nb)); REQUIRE(EVP_PKEY_verify(c2, g.data(), g.size(), tbs.data(), 32) != 1 || a < 2, "verification without a point succeeded"); }
    ERR_clear_error();
    checked(4);
    if (a > 1 || b > 1) nontrivial();
}

// ------------------------------------------------------------------ P10
SCENARIO("P10", priv_roundtrip, 16000, 300000, FUZZABLE, "custom curve, table, or a secret with leading zero bytes")
{
    RefKey k = gen_key(s, 1);
    bool ex = s.flip();
    PKey p = load_priv(pkcs8(k, ex));
    note("%s explicit=%d", describe(k).c_str(), ex);
    REQUIRE(p, "private key refused: %s %s", describe(k).c_str(), err_text().c_str());
    Bytes o = out_pkcs8(p);
    REQUIRE(o == pkcs8(k), "PKCS#8 %s expected %s", hex(o).c_str(), hex(pkcs8(k)).c_str());
    REQUIRE(out_spki(p) == spki(k), "public half of %s: %s expected %s", describe(k).c_str(), hex(out_spki(p)).c_str(), hex(spki(k)).c_str());
    require_printed_point(p, *k.c, k.Q, "recomputed");
    std::string t; if (print_key(p, 2, &t) == 1) { auto m = parse_text(t); if (m.count("priv")) REQUIRE(strip(m["priv"]) == strip(k.d), "printed secret %s expected %s", hex(m["priv"]).c_str(), hex(k.d).c_str()); }
    if (s.flip()) // PEM
    {
        Bio b(BIO_new(BIO_s_mem()));
        REQUIRE(PEM_write_bio_PrivateKey(b, p, nullptr, nullptr, 0, nullptr, nullptr) == 1, "PEM output failed: %s", err_text().c_str());
        PKey q(PEM_read_bio_PrivateKey(b, nullptr, nullptr, nullptr));
        REQUIRE(q && out_pkcs8(q) == o, "private key lost through PEM (%s)", describe(k).c_str());
        REQUIRE(eq(p, q), "key differs after PEM");
        label("pem");
    }
    // longer encodings of the same secret (padding at the most significant end) mean the same number
    if (s.flip())
    {
        Bytes d = rev(k.d); d.insert(d.end(), s.below(4), 0);
        Bytes e = der::seq({der::integer(0), der::seq({alg_oid(k.le), params(*k.c, k.le, canonical_table(k.table), false)}), der::oct(d)});
        PKey q = load_priv(e);
        REQUIRE(q && out_pkcs8(q) == o, "padded secret is read differently (%s)", describe(k).c_str());
        label("padded secret");
    }
    checked(3);
    if (k.c->named < 0 || !k.default_table() || !k.d[0]) nontrivial();
    label(k.le ? "LE" : "BE"); if (!k.d[0]) label("secret with leading zeros");
}
static int pw_cb(char* b, int n, int, void* u) { auto* p = (Bytes*)u; if ((int)p->size() > n) return -1; if (!p->empty()) memcpy(b, p->data(), p->size()); return (int)p->size(); }
SCENARIO("P10", priv_encrypted, 2000, 80000, 0, "every case goes through an encrypted container")
{
    RefKey k = gen_key(s, 0);
    g_rng.reset(s.bits(2));
    Bytes pass = s.blob(1 + s.len(40)), wrong = pass;
    switch (s.below(3)) { case 0: wrong[s.below(wrong.size())] ^= uint8_t(1 + s.below(255)); break; case 1: wrong.push_back(1 + s.byte() % 200); break; default: if (wrong.size() > 1) wrong.pop_back(); else wrong[0] ^= 1; }
    // HMAC pads a short key with zero bytes: passwords that differ only there are one and the same
    auto norm = [](const Bytes& p) { Bytes r = p.size() > 32 ? ref::hash(ref::dflt(), p) : p; while (!r.empty() && !r.back()) r.pop_back(); return r; };
    if (norm(wrong) == norm(pass)) throw Discard();
    int kind = (int)s.below(3);
    nontrivial(); note("%s pass=%s kind=%d", describe(k).c_str(), hex(pass, 16).c_str(), kind);
    Bytes want = pkcs8(k);
    if (kind == 0) // PEM_write_bio_PKCS8PrivateKey, read back
    {
        PKey p = eng_priv(k);
        Bio b(BIO_new(BIO_s_mem()));
        REQUIRE(PEM_write_bio_PKCS8PrivateKey(b, p, CIPHER(), (char*)pass.data(), (int)pass.size(), nullptr, nullptr) == 1, "encrypted PEM output failed: %s", err_text().c_str());
        char* t; long n = BIO_get_mem_data(b, &t); Bytes pem(t, t + n);
        Bio b1(BIO_new_mem_buf(pem.data(), (int)pem.size())), b2(BIO_new_mem_buf(pem.data(), (int)pem.size()));
        PKey q(PEM_read_bio_PrivateKey(b1, nullptr, pw_cb, &pass));
        REQUIRE(q && out_pkcs8(q) == want, "encrypted PEM does not give the key back: %s", err_text().c_str());
        PKey z(PEM_read_bio_PrivateKey(b2, nullptr, pw_cb, &wrong));
        if (z) { bool ok; REQUIRE(out_pkcs8(z, &ok) != want, "a wrong password gives the key"); }
        label("pem"); 
    }
    else if (kind == 1) // PKCS8_encrypt / decrypt
    {
        PKey p = eng_priv(k); P8 p8(EVP_PKEY2PKCS8(p)); REQUIRE(p8, "no PKCS#8");
        Bytes salt = s.noise(8 + s.below(9));
        X509_SIG* sg = PKCS8_encrypt(-1, CIPHER(), (char*)pass.data(), (int)pass.size(), salt.data(), (int)salt.size(), 1 + (int)s.below(30), p8);
        REQUIRE(sg, "PKCS8_encrypt failed: %s", err_text().c_str());
        P8 d(PKCS8_decrypt(sg, (char*)pass.data(), (int)pass.size())), d2(PKCS8_decrypt(sg, (char*)wrong.data(), (int)wrong.size()));
        X509_SIG_free(sg);
        REQUIRE(d, "PKCS8_decrypt failed: %s", err_text().c_str());
        PKey q(EVP_PKCS82PKEY(d)); REQUIRE(q && out_pkcs8(q) == want, "the decrypted key differs");
        if (d2) { PKey z(EVP_PKCS82PKEY(d2)); bool ok; if (z) REQUIRE(out_pkcs8(z, &ok) != want, "a wrong password gives the key"); }
        label("pkcs8_encrypt");
    }
    else // written by another implementation: any table in the cipher parameters
    {
        Bytes salt = s.noise(8 + s.below(9)), iv = s.noise(8), tb = gen_table(s); int it = 1 + (int)s.below(30);
        Bytes key = ref::pbkdf2(ref::dflt(), pass, salt, it, 32);
        Bytes ct = ref::cfb(ref::unpack(tb.data()), key.data(), iv.data(), pkcs8(k, s.flip()), true);
        Bytes kdf = der::seq({der::oid("1.2.840.113549.1.5.12"), der::seq({der::oct(salt), der::integer(it), der::seq({der::oid("1.2.804.2.1.1.1.1.1.2"), der::null()})})});
        Bytes encs = der::seq({der::oid("1.2.804.2.1.1.1.1.1.1.3"), der::seq({der::oct(iv), der::oct(tb)})});
        Bytes e = der::seq({der::seq({der::oid("1.2.840.113549.1.5.13"), der::seq({kdf, encs})}), der::oct(ct)});
        Bio b(BIO_new_mem_buf(e.data(), (int)e.size()));
        PKey q(d2i_PKCS8PrivateKey_bio(b, nullptr, pw_cb, &pass));
        REQUIRE(q && out_pkcs8(q) == want, "foreign encrypted key not read: %s", err_text().c_str());
        label("foreign");
    }
    ERR_clear_error();
    checked(2);
}

// ------------------------------------------------------------------ P11
SCENARIO("P11", named_curves, 6000, 100000, FUZZABLE, "every case checks one named curve through one form")
{
    const Curve& c = named((int)s.below(10));
    RefKey k; k.c = &c; k.le = s.flip(); if (s.flip()) k.table = gen_table(s);
    set_secret(k, gen_secret(s, c));
    int form = (int)s.below(4);
    PKey p; const char* what = "";
    switch (form)
    {
        case 0: what = "named private"; p = load_priv(pkcs8(k)); break;
        case 1: what = "explicit private"; p = load_priv(pkcs8(k, true)); break;
        case 2: what = "explicit public"; p = load_pub(spki(k, true)); break;
        default: what = "named public"; p = load_pub(spki(k));
    }
    note("%s %s", describe(k).c_str(), what);
    REQUIRE(p, "%s key refused: %s (%s)", what, err_text().c_str(), describe(k).c_str());
    REQUIRE(out_spki(p) == spki(k), "%s key on %s is encoded as %s expected %s", what, c.name.c_str(), hex(out_spki(p)).c_str(), hex(spki(k)).c_str());
    std::string t; REQUIRE(print_key(p, 0, &t) == 1, "parameters cannot be printed");
    auto m = parse_text(t); require_printed_curve(m, c, what);
    REQUIRE(EVP_PKEY_get_bits(p) == c.m && (size_t)EVP_PKEY_get_size(p) == der::oct(Bytes(2 * c.nb)).size(), "sizes of %s", c.name.c_str());
    // the secret's public point: base point, field and coefficients all enter
    if (form < 2) require_printed_point(p, c, k.Q, what);
    // parameters alone, in both forms
    Bytes pd = params(c, k.le, k.table, s.flip()); const uint8_t* q = pd.data();
    PKey pp(d2i_KeyParams(OBJ_txt2nid(k.le ? "dstu4145le" : "dstu4145be"), nullptr, &q, (long)pd.size()));
    REQUIRE(pp && EVP_PKEY_parameters_eq(pp, p) == 1, "parameters in another form compare different (%s)", describe(k).c_str());
    uint8_t* o = nullptr; int n = i2d_KeyParams(pp, &o); Bytes e; if (n > 0) e.assign(o, o + n); OPENSSL_free(o);
    REQUIRE(e == params(c, k.le, canonical_table(k.table), false), "parameters encode as %s", hex(e).c_str());
    checked(4); nontrivial(); label(c.name.c_str()); label(what);
}
SCENARIO("P11", custom_curves, 20000, 400000, FUZZABLE, "every case is a curve that is not (or just not any more) a named one")
{
    auto tc = gen_synth(s);
    const Curve& c = tc->c;
    bool le = s.flip(); Bytes tb = s.flip() ? gen_table(s) : Bytes();
    Bytes pd = params(c, le, tb, true); const uint8_t* q = pd.data();
    note("%s m=%d ex=%zu a=%d b=%s n=%s %s", c.name.c_str(), c.m, c.ex.size(), c.a, hex(c.b, 12).c_str(), hex(c.n, 12).c_str(), le ? "LE" : "BE");
    PKey p(d2i_KeyParams(OBJ_txt2nid(le ? "dstu4145le" : "dstu4145be"), nullptr, &q, (long)pd.size()));
    REQUIRE(p, "parameters refused: %s (%s)", err_text().c_str(), hex(pd).c_str());
    uint8_t* o = nullptr; int n = i2d_KeyParams(p, &o); Bytes e; if (n > 0) e.assign(o, o + n); OPENSSL_free(o);
    Bytes w = params(c, le, canonical_table(tb), true);
    REQUIRE(e == w, "parameters of %s encode as %s expected %s", c.name.c_str(), hex(e).c_str(), hex(w).c_str());
    std::string t; if (print_key(p, 0, &t) == 1) { auto m = parse_text(t); require_printed_curve(m, c, "custom"); }
    REQUIRE(EVP_PKEY_get_bits(p) == c.m, "bits");
    // given as a group to the generator of the other byte order, the same curve comes out
    if (s.flip())
    {
        RefKey k; k.c = &c; k.le = !le;
        PKeyCtx g(EVP_PKEY_CTX_new_id(OBJ_txt2nid(!le ? "dstu4145le" : "dstu4145be"), g_engine));
        REQUIRE(EVP_PKEY_keygen_init(g) == 1 && EVP_PKEY_CTX_ctrl(g, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE_PKEY, 0, c.grp) == 1, "curve refused");
        EVP_PKEY* kk = nullptr; 
        if (EVP_PKEY_keygen(g, &kk) == 1)
        {
            PKey h(kk); n = i2d_KeyParams(h, &(o = nullptr)); Bytes e2; if (n > 0) e2.assign(o, o + n); OPENSSL_free(o);
            REQUIRE(e2 == params(c, !le, Bytes(), true), "generated on %s: parameters %s", c.name.c_str(), hex(e2).c_str());
            checked(); label("generated");
        }
    }
    checked(2); nontrivial(); label(c.ex.size() == 2 ? "trinomial" : "pentanomial"); label(c.name == "made-up" ? "made-up" : c.name.substr(c.name.size() - 2).c_str());
}

// ------------------------------------------------------------------ P12
SCENARIO("P12", compress_points, 40000, 800000, FUZZABLE, "every case is one point (or one candidate string) on one curve")
{
    std::unique_ptr<TmpCurve> tc; const Curve* c;
    if (s.flip()) { tc = gen_synth(s); c = &tc->c; } else c = &gen_curve(s, 1);
    RefKey k; k.c = c; k.le = s.flip(); k.Q.reset(EC_POINT_new(c->grp));
    nontrivial();
    if (s.flip()) // a point
    {
        if (!gen_point(s, *c, k.Q)) throw Discard();
        if (s.flip()) EC_POINT_invert(c->grp, k.Q, nullptr);
        if (degenerate(*c, k.Q)) throw Discard();
        Bytes cp = compress(*c, k.Q);
        PKey p = load_pub(spki(k));
        note("%s point x=%s", c->name.c_str(), hex(cp, 24).c_str());
        REQUIRE(p, "compressed point %s on %s refused: %s", hex(cp).c_str(), c->name.c_str(), err_text().c_str());
        require_printed_point(p, *c, k.Q, "expanded");
        Bytes o = out_spki(p);
        REQUIRE(o == spki(k), "point %s on %s is compressed to %s", hex(cp).c_str(), c->name.c_str(), hex(o).c_str());
        // the opposite point is another key
        RefKey m = clone(k); EC_POINT_invert(c->grp, m.Q, nullptr);
        PKey q = load_pub(spki(m)); REQUIRE(q && !eq(p, q), "a point and its opposite are not told apart (%s)", c->name.c_str());
        require_printed_point(q, *c, m.Q, "opposite");
        label("point"); checked(4);
    }
    else // arbitrary string
    {
        Bytes x; int kind = (int)s.below(6);
        size_t fb = c->fb;
        switch (kind)
        {
            case 0: x = s.noise(fb); if (c->m % 8) x[0] &= uint8_t((1 << c->m % 8) - 1); break;
            case 1: x = s.noise(fb); break;
            case 2: x = Bytes(fb, 0); x[fb - 1] = (uint8_t)s.below(4); break;
            case 3: x = s.blob(s.len(fb + 6)); break;
            case 4: x = s.noise(fb); if (c->m % 8) x[0] &= uint8_t((1 << c->m % 8) - 1); x.insert(x.begin(), 1 + s.below(3), uint8_t(s.chance(128) ? 1 : 0)); break;
            default: x = bn2b(c->P, fb + 1); x[s.below(x.size())] ^= uint8_t(s.below(4)); if (x.size() > fb && !x[0]) x.erase(x.begin()); break;
        }
        Bytes e = x; if (k.le) e = rev(e);
        Bytes sp = der::seq({der::seq({alg_oid(k.le), params(*c, k.le, Bytes(), false)}), der::bits(der::oct(e))});
        PKey p = load_pub(sp);
        Point w(EC_POINT_new(c->grp)); bool can = expand(*c, x, w);
        bool canonical = x.size() == fb && can && compress(*c, w) == x && !degenerate(*c, w);
        note("%s string %s -> %s", c->name.c_str(), hex(x, 24).c_str(), p ? "accepted" : "refused");
        if (canonical) REQUIRE(p, "compressed point %s on %s refused", hex(x).c_str(), c->name.c_str());
        if (p)
        {
            REQUIRE(can, "string %s on %s was accepted although no point has it", hex(x).c_str(), c->name.c_str());
            require_printed_point(p, *c, w, "string");
            bool ok; Bytes o = out_spki(p, &ok); Bytes cw = compress(*c, w); if (k.le) cw = rev(cw);
            REQUIRE(ok && o.size() >= cw.size() && Bytes(o.end() - cw.size(), o.end()) == cw, "accepted string %s on %s is compressed to %s", hex(x).c_str(), c->name.c_str(), hex(o).c_str());
        }
        label(p ? "string accepted" : "string refused"); checked();
    }
    ERR_clear_error();
}

// ------------------------------------------------------------------ P13
static void exercise(EVP_PKEY* p, bool priv, const char* how)
{
    bool ok; std::string t;
    Bytes o = out_spki(p, &ok);
    if (!ok && priv && print_key(p, 1, &t) == 1) // x = 0 or 1 may have no compressed form (small curves only)
    {
        auto m = parse_text(t); Bytes q = m["pub"]; if (q.size() > 2) q = Bytes(q.begin() + 1, q.begin() + 1 + q.size() / 2);
        q = strip(q); if (q.empty() || q == Bytes{1}) { ERR_clear_error(); label("point without compressed form"); return; }
    }
    REQUIRE(ok, "a decoded key (%s) cannot be encoded again: %s", how, err_text().c_str());
    if (priv) { out_pkcs8(p, &ok); REQUIRE(ok, "a decoded private key (%s) cannot be encoded again", how); }
    PKey q = load_pub(o); if (q) { (void)EVP_PKEY_eq(p, q); (void)EVP_PKEY_eq(q, p); }
    REQUIRE(EVP_PKEY_eq(p, p) == 1, "a decoded key (%s) differs from itself", how);
    for (int w = 0; w < (priv ? 3 : 2); ++w) print_key(p, w, &t);
    int sz = EVP_PKEY_get_size(p); (void)EVP_PKEY_get_bits(p);
    REQUIRE(sz > 0 && sz < 2000, "size %d", sz);
    Bytes tbs(32, 0x5a), sig(sz); size_t n = sz;
    if (priv)
    {
        PKeyCtx c(EVP_PKEY_CTX_new(p, g_engine));
        if (c && EVP_PKEY_sign_init(c) == 1) { uint8_t* b = (uint8_t*)malloc(sz); if (EVP_PKEY_sign(c, b, &n, tbs.data(), 32) == 1) sig.assign(b, b + n); free(b); }
    }
    PKeyCtx c2(EVP_PKEY_CTX_new(p, g_engine));
    if (c2 && EVP_PKEY_verify_init(c2) == 1) { (void)EVP_PKEY_verify(c2, sig.data(), sig.size(), tbs.data(), 32); Bytes g = der::oct(Bytes(sz > 8 ? (sz - 4) & ~1 : 2, 1)); (void)EVP_PKEY_verify(c2, g.data(), g.size(), tbs.data(), 32); }
    ERR_clear_error();
    checked(2);
}
SCENARIO("P13", malformed_keys, 30000, 600000, FUZZABLE, "the encoding was changed")
{
    RefKey k = gen_key(s, 1);
    g_rng.reset(3); g_rng.limit = 200000;
    int what = (int)s.below(3);
    Bytes b = what == 0 ? spki(k, s.flip()) : what == 1 ? pkcs8(k, s.flip()) : params(*k.c, k.le, k.table, s.flip());
    if (what != 2 && s.chance(50)) b = what == 0 ? spki(k, true) : pkcs8(k, true);
    std::string how; Bytes m = s.chance(250) ? mut::der_mutate(s, b, &how) : s.raw(s.below(60));
    if (m != b) nontrivial();
    note("%s %s: %s-> %s", what == 0 ? "spki" : what == 1 ? "pkcs8" : "params", describe(k).c_str(), how.c_str(), hex(m, 40).c_str());
    if (what == 2)
    {
        uint8_t* h = (uint8_t*)malloc(m.size() + !m.size()); if (!m.empty()) memcpy(h, m.data(), m.size()); const uint8_t* q = h;
        PKey p(d2i_KeyParams(OBJ_txt2nid(k.le ? "dstu4145le" : "dstu4145be"), nullptr, &q, (long)m.size()));
        free(h);
        if (p) { uint8_t* o = nullptr; int n = i2d_KeyParams(p, &o); OPENSSL_free(o); REQUIRE(n > 0, "decoded parameters (%s) cannot be encoded again: %s", how.c_str(), err_text().c_str()); std::string t; print_key(p, 0, &t); REQUIRE(EVP_PKEY_parameters_eq(p, p) == 1, "parameters differ from themselves"); }
        label(p ? "params accepted" : "params refused");
    }
    else
    {
        PKey p = what == 0 ? load_pub(m) : load_priv(m);
        if (p && (EVP_PKEY_get_base_id(p) == OBJ_txt2nid("dstu4145le") || EVP_PKEY_get_base_id(p) == OBJ_txt2nid("dstu4145be"))) exercise(p, what == 1, how.c_str());
        label(what == 0 ? (p ? "spki accepted" : "spki refused") : (p ? "pkcs8 accepted" : "pkcs8 refused"));
    }
    ERR_clear_error();
    checked();
}
// hand-made parameters with every field absurd in its own way
SCENARIO("P13", absurd_parameters, 30000, 600000, FUZZABLE, "every case")
{
    g_rng.reset(3); g_rng.limit = 200000;
    auto num = [&](uint64_t base) -> Bytes { switch (s.below(6)) { case 0: return der::tlv(2, mut::odd_int(s)); case 1: return der::integer(s.below(700)); case 2: return der::tlv(2, s.raw(1 + s.below(9))); default: return der::integer(base + s.below(3)); } };
    const Curve& c = gen_curve(s, 1);
    bool le = s.flip(), penta = s.flip();
    Bytes poly = penta ? der::seq({num(c.ex.size() > 3 ? c.ex[3] : 1), num(c.ex.size() > 3 ? c.ex[2] : 2), num(c.ex.size() > 3 ? c.ex[1] : 3)}) : num(c.ex[1]);
    if (!s.chance(100)) poly = c.ex.size() == 2 ? der::integer(c.ex[1]) : der::seq({der::integer(c.ex[3]), der::integer(c.ex[2]), der::integer(c.ex[1])});
    Bytes m = s.chance(90) ? num(c.m) : der::integer(c.m);
    Bytes a = s.chance(60) ? num(c.a) : der::integer(c.a);
    Bytes b = s.chance(90) ? s.blob(s.len(c.fb + 10)) : bn2b(c.B, c.fb), n = s.chance(120) ? num(s.below(40)) : der::uint_be(c.n);
    Bytes g = s.chance(90) ? s.blob(s.len(c.fb + 3)) : compress(c, EC_GROUP_get0_generator(c.grp));
    if (le) { b = rev(b); g = rev(g); }
    Bytes spec = der::seq({der::seq({m, poly}), a, der::oct(b), n, der::oct(g)});
    if (s.chance(20)) { static const char* o[] = {"1.2.804.2.1.1.1.1.3.1.1.2.10", "1.2.840.10045.3.1.7", "1.2.804.2.1.1.1.1.3.1.1", "1.3.132.0.27"}; spec = der::oid(o[s.below(4)]); }
    Bytes tb = s.chance(60) ? der::oct(s.noise(s.below(130))) : s.flip() ? der::oct(gen_table(s)) : Bytes();
    Bytes par = der::seq({spec, tb});
    Bytes pt = s.chance(100) ? s.blob(s.len(c.fb + 3)) : compress(c, EC_GROUP_get0_generator(c.grp)); if (le) pt = rev(pt);
    bool priv = s.flip();
    Bytes enc = priv ? der::seq({der::integer(0), der::seq({alg_oid(le), par}), der::oct(s.chance(60) ? s.blob(s.len(100)) : s.noise(1 + s.below(c.nb)))})
                     : der::seq({der::seq({alg_oid(le), par}), der::bits(s.chance(20) ? pt : der::oct(pt), s.chance(20) ? (uint8_t)s.below(8) : 0)});
    note("%s %s %s", c.name.c_str(), priv ? "pkcs8" : "spki", hex(par, 60).c_str());
    PKey p = priv ? load_priv(enc) : load_pub(enc);
    if (p) exercise(p, priv, "absurd");
    ERR_clear_error();
    nontrivial(); checked(); label(p ? "accepted" : "refused");
}
// cipher parameters
SCENARIO("P13", malformed_cipher_params, 60000, 1000000, FUZZABLE, "parameters that are not the documented sequence")
{
    Bytes iv = s.noise(8), tb = gen_table(s);
    Bytes good = der::seq({der::oct(iv), der::oct(tb)}); std::string how;
    Bytes m = s.chance(30) ? s.raw(s.below(90)) : mut::der_mutate(s, good, &how);
    if (s.chance(60)) { m = good; m[2 + s.below(2)] = s.byte(); }
    CipherCtx c(EVP_CIPHER_CTX_new());
    Bytes key = s.noise(32), iv0 = s.noise(8);
    REQUIRE(EVP_CipherInit_ex(c, CIPHER(), g_engine, key.data(), iv0.data(), 1) == 1, "init");
    uint8_t* h = (uint8_t*)malloc(m.size() + !m.size()); if (!m.empty()) memcpy(h, m.data(), m.size()); const uint8_t* q = h;
    ASN1_TYPE* t = d2i_ASN1_TYPE(nullptr, &q, (long)m.size());
    size_t used = q - h; free(h);
    if (!t) { ERR_clear_error(); label("not DER"); return; }
    int r = EVP_CIPHER_asn1_to_param(c, t);
    ASN1_TYPE_free(t);
    ERR_clear_error();
    Bytes mm(m.begin(), m.begin() + used);
    // the documented structure, in DER
    bool ok = mm.size() == 78 && mm[0] == 0x30 && mm[1] == 76 && mm[2] == 4 && mm[3] == 8 && mm[12] == 4 && mm[13] == 64;
    note("%s-> %s r=%d", how.c_str(), hex(mm, 30).c_str(), r);
    REQUIRE((r > 0) == ok, "cipher parameters %s: %d expected %s", hex(mm).c_str(), r, ok ? "acceptance" : "refusal");
    Bytes in = s.noise(20), out(20); int n = 0;
    REQUIRE(EVP_CipherUpdate(c, out.data(), &n, in.data(), 20) == 1 && n == 20, "update after import failed");
    ref::Sbox sb = ok ? ref::unpack(mm.data() + 14) : ref::dflt();
    Bytes w = ref::cfb(sb, key.data(), ok ? mm.data() + 4 : iv0.data(), in, true);
    REQUIRE(out == w, "after parameters %s (%s) the cipher gives %s expected %s", hex(mm).c_str(), ok ? "accepted" : "refused", hex(out).c_str(), hex(w).c_str());
    checked(2); if (!ok) nontrivial(); label(ok ? "accepted" : "refused");
}

// the same cases in sequence
SCENARIO_AGAIN("P08", keygen_histories, 1500, 60000)
SCENARIO_AGAIN("P09", pub_roundtrip, 1500, 60000)
SCENARIO_AGAIN("P09", key_compare, 1500, 60000)
SCENARIO_AGAIN("P10", priv_roundtrip, 1500, 60000)
SCENARIO_AGAIN("P11", named_curves, 1200, 30000)
SCENARIO_AGAIN("P11", custom_curves, 3000, 60000)
SCENARIO_AGAIN("P12", compress_points, 1500, 100000)
SCENARIO_AGAIN("P13", malformed_keys, 5000, 100000)
