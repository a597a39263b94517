#include "dk.h"
#include <unistd.h>
#include <map>
#include <mutex>
#include <cstdlib>
#include <openssl/pem.h>
#include <openssl/pkcs12.h>

namespace dk
{
struct Row { int named; std::vector<int> ex; int a; const char *b, *n, *gx, *gy; };
static const Row NAMED[] = {
#include "curves.inc"
};
static const Row TOYS[] = {
#include "toys.inc"
};
static std::vector<Curve>* g_curves = nullptr;
static int g_first_toy = 0;

BIGNUM* b2bn(const Bytes& b) { return BN_bin2bn(b.data(), (int)b.size(), nullptr); }
Bytes bn2b(const BIGNUM* x, size_t n)
{
    Bytes r(n);
    if (BN_bn2binpad(x, r.data(), (int)n) < 0) { fprintf(stderr, "bn2b: does not fit\n"); abort(); }
    return r;
}
static void complete(Curve& c)
{
    c.m = c.ex[0]; c.fb = (c.m + 7) / 8;
    std::vector<int> arr = c.ex; arr.push_back(0); arr.push_back(-1);
    c.P = BN_new(); BN_GF2m_arr2poly(arr.data(), c.P);
    c.N = b2bn(c.n); c.B = b2bn(c.b);
    c.nb = BN_num_bytes(c.N);
    Bn a(BN_new()); BN_set_word(a, c.a);
    c.grp = EC_GROUP_new_curve_GF2m(c.P, a, c.B, nullptr);
    if (!c.grp) { fprintf(stderr, "curve %s not accepted by OpenSSL\n", c.name.c_str()); abort(); }
    Point g(EC_POINT_new(c.grp)); Bn x(b2bn(c.gx)), y(b2bn(c.gy));
    if (!EC_POINT_set_affine_coordinates(c.grp, g, x, y, nullptr) || !EC_GROUP_set_generator(c.grp, g, c.N, BN_value_one()))
    { fprintf(stderr, "curve %s: bad base point\n", c.name.c_str()); abort(); }
}
// Points a small curve has and a real one practically never: x = 1 (the standard's compressed form of one of them is
// the reserved value 0) and y in {0, x} (OpenSSL takes a point with y = 0 for its own inverse).
bool degenerate(const Curve& c, const EC_POINT* q)
{
    Bn x(BN_new()), y(BN_new());
    if (EC_POINT_is_at_infinity(c.grp, q) || !EC_POINT_get_affine_coordinates(c.grp, q, x, y, nullptr)) return true;
    return BN_is_zero(x) || BN_is_one(x) || BN_is_zero(y) || !BN_cmp(x, y);
}
static std::vector<Curve>& all()
{
    static std::once_flag once;
    std::call_once(once, [] {
        auto* v = new std::vector<Curve>;
        for (auto& r : NAMED) { Curve c; c.named = r.named; c.ex = r.ex; c.a = r.a; c.b = unhex(r.b); c.n = unhex(r.n); c.gx = unhex(r.gx); c.gy = unhex(r.gy); c.name = "uacurve" + std::to_string(r.named); complete(c); v->push_back(c); }
        static const int nids[] = {NID_sect163k1, NID_sect163r2, NID_sect233k1, NID_sect233r1, NID_sect239k1, NID_sect283k1, NID_sect283r1, NID_sect409k1, NID_sect409r1, NID_sect571k1, NID_sect571r1, NID_wap_wsg_idm_ecid_wtls1};
        for (int nid : nids)
        {
            Group g(EC_GROUP_new_by_curve_name(nid));
            if (!g) continue;
            Bn p(BN_new()), a(BN_new()), b(BN_new()), x(BN_new()), y(BN_new());
            EC_GROUP_get_curve(g, p, a, b, nullptr);
            if (!BN_is_zero(a) && !BN_is_one(a)) continue;
            int arr[8]; int k = BN_GF2m_poly2arr(p, arr, 8);
            Curve c; c.named = -1; c.a = BN_is_one(a); c.name = OBJ_nid2sn(nid);
            for (int i = 0; i < k - 1 && arr[i] > 0; ++i) c.ex.push_back(arr[i]);
            int fb = (arr[0] + 7) / 8;
            EC_POINT_get_affine_coordinates(g, EC_GROUP_get0_generator(g), x, y, nullptr);
            c.b = bn2b(b, fb); c.gx = bn2b(x, fb); c.gy = bn2b(y, fb); c.n = bn2b(EC_GROUP_get0_order(g), fb + 1);
            complete(c); v->push_back(c);
        }
        for (int i = 0; i < 10; ++i) // named curves with another base point, or with another b twisted out of the table: not named any more
        {
            Curve c = (*v)[i];
            Point q(EC_POINT_new(c.grp)); Bn k(BN_new()); BN_set_word(k, 3 + 2 * i);
            EC_POINT_mul(c.grp, q, k, nullptr, nullptr, nullptr);
            Bn x(BN_new()), y(BN_new()); EC_POINT_get_affine_coordinates(c.grp, q, x, y, nullptr);
            c.gx = bn2b(x, c.fb); c.gy = bn2b(y, c.fb); c.named = -1; c.name += "-base" + std::to_string(3 + 2 * i);
            complete(c); v->push_back(c);
        }
        g_first_toy = (int)v->size();
        for (auto& r : TOYS) { Curve c; c.named = -1; c.toy = true; c.ex = r.ex; c.a = r.a; c.b = unhex(r.b); c.n = unhex(r.n); c.gx = unhex(r.gx); c.gy = unhex(r.gy); c.name = "toy" + std::to_string(r.ex[0]) + "n" + r.n; complete(c); if (!degenerate(c, EC_GROUP_get0_generator(c.grp))) v->push_back(c); }
        g_curves = v;
    });
    return *g_curves;
}
const Curve& named(int i) { return all()[i]; }
int ncurves() { return (int)all().size(); }
const Curve& curve(int i) { return all()[i]; }
int first_toy() { all(); return g_first_toy; }
const char* curve_sn(int i) { static const char* n[] = {"uacurve0", "uacurve1", "uacurve2", "uacurve3", "uacurve4", "uacurve5", "uacurve6", "uacurve7", "uacurve8", "uacurve9"}; return n[i]; }

void selfcheck()
{
    BnCtx ctx(BN_CTX_new());
    for (auto& c : all())
    {
        // base point of order n, n prime, n close to 2^m / cofactor
        Point q(EC_POINT_new(c.grp));
        Bn x(b2bn(c.gx)), y(b2bn(c.gy));
        EC_POINT_set_affine_coordinates(c.grp, q, x, y, ctx);
        Point acc(EC_POINT_new(c.grp)); EC_POINT_set_to_infinity(c.grp, acc);
        for (int i = BN_num_bits(c.N) - 1; i >= 0; --i) { EC_POINT_dbl(c.grp, acc, acc, ctx); if (BN_is_bit_set(c.N, i)) EC_POINT_add(c.grp, acc, acc, q, ctx); }
        bool ok = EC_POINT_is_at_infinity(c.grp, acc) && BN_check_prime(c.N, ctx, nullptr) == 1;
        int h = c.m - BN_num_bits(c.N) + 1;
        ok = ok && h >= 0 && h <= 4;
        if (!ok) { fprintf(stderr, "reference curve %s is wrong (order does not match)\n", c.name.c_str()); _exit(3); }
        // scalar multiplication agrees with double-and-add
        if (c.toy)
            for (unsigned k = 0; k < 40; ++k)
            {
                Bn e(BN_new()); BN_set_word(e, (k * 2654435761u) % BN_get_word(c.N));
                Point p1(EC_POINT_new(c.grp)); EC_POINT_mul(c.grp, p1, e, nullptr, nullptr, ctx);
                EC_POINT_set_to_infinity(c.grp, acc);
                for (int i = BN_num_bits(e) - 1; i >= 0; --i) { EC_POINT_dbl(c.grp, acc, acc, ctx); if (BN_is_bit_set(e, i)) EC_POINT_add(c.grp, acc, acc, q, ctx); }
                if (EC_POINT_cmp(c.grp, acc, p1, ctx)) { fprintf(stderr, "scalar multiplication on %s disagrees\n", c.name.c_str()); _exit(3); }
            }
    }
    // DSTU 4145-2002, Annex B example on the 163-bit curve (also in BouncyCastle's tests)
    RefKey k; static Curve bc;
    bc = named(0); 
    bc.gx = unhex("072d867f93a93ac27df9ff01affe74885c8c540420"); bc.gy = unhex("0224a9c3947852b97c5599d5f4ab81122adc3fd9b"); bc.gy = unhex("00224a9c3947852b97c5599d5f4ab81122adc3fd9b");
    bc.named = -1; complete(bc);
    k.c = &bc; k.le = false;
    set_secret(k, unhex("0183f60fdf7951ff47d67193f8d073790c1c9b5a3e"));
    Bn qx(BN_new()), qy(BN_new()); EC_POINT_get_affine_coordinates(bc.grp, k.Q, qx, qy, nullptr);
    if (hex(bn2b(qx, 21)) != "057de7fde023ff929cb6ac785ce4b79cf64abdc2da" || hex(bn2b(qy, 21)) != "03e85444324bcf06ad85abf6ad7b5f34770532b9aa") { fprintf(stderr, "DSTU 4145 example: public key differs\n"); _exit(3); }
    Bytes H = rev(unhex("09c9c44277910c9aaee486883a2eb95b7180166ddf73532eeb76edaef52247ff"));
    Bn e(b2bn(unhex("01025e40bd97db012b7a1d79de8e12932d247f61c6"))); Sig g;
    if (!sign(k, H, e, &g) || hex(g.r) != "0274ea2c0caa014a0d80a424f59ade7a93068d08a7" || hex(g.s) != "02100d86957331832b8e8c230f5bd6a332b3615aca") { fprintf(stderr, "DSTU 4145 example: signature differs r=%s s=%s\n", hex(g.r).c_str(), hex(g.s).c_str()); _exit(3); }
}

// ------------------------------------------------------------------ points
int trace(const Curve& c, const BIGNUM* z)
{
    BnCtx ctx(BN_CTX_new());
    Bn t(BN_dup(z)), acc(BN_dup(z));
    for (int i = 1; i < c.m; ++i) { BN_GF2m_mod_sqr(t, t, c.P, ctx); BN_GF2m_add(acc, acc, t); }
    BN_GF2m_mod(acc, acc, c.P);
    return BN_is_one(acc) ? 1 : BN_is_zero(acc) ? 0 : -1;
}
Bytes compress(const Curve& c, const EC_POINT* q)
{
    BnCtx ctx(BN_CTX_new());
    Bn x(BN_new()), y(BN_new()), z(BN_new());
    if (EC_POINT_is_at_infinity(c.grp, q)) return Bytes();
    EC_POINT_get_affine_coordinates(c.grp, q, x, y, ctx);
    if (BN_is_zero(x)) return Bytes(c.fb, 0);
    BN_GF2m_mod_inv(z, x, c.P, ctx); BN_GF2m_mod_mul(z, z, y, c.P, ctx);
    if (trace(c, z) == 1) BN_set_bit(x, 0); else BN_clear_bit(x, 0);
    return bn2b(x, c.fb);
}
bool expand(const Curve& c, const Bytes& be, EC_POINT* out)
{
    BnCtx ctx(BN_CTX_new());
    Bn x(b2bn(be));
    if (BN_num_bits(x) > c.m) return false;
    int k = BN_is_bit_set(x, 0);
    if (BN_is_zero(x)) { Bn y(BN_new()); BN_GF2m_mod_sqrt(y, c.B, c.P, ctx); return EC_POINT_set_affine_coordinates(c.grp, out, x, y, ctx) == 1; }
    BN_clear_bit(x, 0);
    if (trace(c, x) != c.a) BN_set_bit(x, 0);
    if (BN_is_zero(x)) return false;
    // z^2 + z = x + a + b/x^2, solved with the half-trace (m is odd)
    Bn x2(BN_new()), w(BN_new());
    BN_GF2m_mod_sqr(x2, x, c.P, ctx); BN_GF2m_mod_inv(x2, x2, c.P, ctx); BN_GF2m_mod_mul(w, c.B, x2, c.P, ctx);
    BN_GF2m_add(w, w, x); if (c.a) BN_GF2m_add(w, w, BN_value_one());
    if (trace(c, w) != 0) return false;
    Bn z(BN_dup(w)), t(BN_dup(w));
    for (int i = 0; i < (c.m - 1) / 2; ++i) { BN_GF2m_mod_sqr(t, t, c.P, ctx); BN_GF2m_mod_sqr(t, t, c.P, ctx); BN_GF2m_add(z, z, t); }
    if (trace(c, z) != k) BN_GF2m_add(z, z, BN_value_one());
    Bn y(BN_new()); BN_GF2m_mod_mul(y, z, x, c.P, ctx);
    return EC_POINT_set_affine_coordinates(c.grp, out, x, y, ctx) == 1;
}
Bytes xy(const Curve& c, const EC_POINT* q)
{
    if (EC_POINT_is_at_infinity(c.grp, q)) return Bytes();
    Bn x(BN_new()), y(BN_new());
    EC_POINT_get_affine_coordinates(c.grp, q, x, y, nullptr);
    Bytes r = bn2b(x, c.fb), t = bn2b(y, c.fb); r.insert(r.end(), t.begin(), t.end());
    return r;
}

// ------------------------------------------------------------------ keys
void set_secret(RefKey& k, const Bytes& d)
{
    Bn b(b2bn(d)); Bn m(BN_new()); BnCtx ctx(BN_CTX_new());
    k.d = d;
    BN_mod(m, b, k.c->N, ctx);
    k.Q.reset(EC_POINT_new(k.c->grp));
    EC_POINT_mul(k.c->grp, k.Q, m, nullptr, nullptr, ctx);
    EC_POINT_invert(k.c->grp, k.Q, ctx);
}
Bytes gen_secret(Src& s, const Curve& c)
{
    Bn d(BN_new()); BnCtx ctx(BN_CTX_new());
    switch (s.below(8))
    {
        case 0: BN_set_word(d, 1 + s.below(255)); break;
        case 1: BN_copy(d, c.N); BN_sub_word(d, 1 + s.below(255)); break;
        case 2: { Bytes b = s.noise(c.nb); size_t z = s.below(c.nb); std::fill(b.begin(), b.begin() + z, 0); d.reset(b2bn(b)); break; }  // leading zero bytes
        case 3: { Bytes b = s.noise(c.nb); size_t z = 1 + s.below(c.nb); std::fill(b.end() - z, b.end(), 0); d.reset(b2bn(b)); break; }  // trailing zero bytes
        case 4: BN_set_word(d, 1); BN_lshift(d, d, (int)s.below(BN_num_bits(c.N))); break;
        default: d.reset(b2bn(s.noise(c.nb)));
    }
    if (BN_is_negative(d)) BN_set_negative(d, 0);
    BN_mod(d, d, c.N, ctx);
    if (BN_is_zero(d)) BN_one(d);
    if (c.toy)
        for (;;)
        {
            Point q(EC_POINT_new(c.grp)); EC_POINT_mul(c.grp, q, d, nullptr, nullptr, ctx);
            if (!degenerate(c, q)) break;
            BN_add_word(d, 1);
            if (!BN_cmp(d, c.N)) BN_one(d);
        }
    return bn2b(d, c.nb);
}
const Curve& gen_curve(Src& s, int toys)
{
    int n = ncurves(), ft = first_toy();
    if (toys == 2) return curve(ft + (int)s.below(n - ft));
    unsigned w = (unsigned)s.below(toys ? 10 : 7);
    if (w < 4) return curve((int)s.below(10));
    if (w < 7) return curve(10 + (int)s.below(ft - 10));
    return curve(ft + (int)s.below(n - ft));
}
RefKey gen_key(Src& s, int toys)
{
    RefKey k;
    k.c = &gen_curve(s, toys);
    k.le = s.flip();
    switch (s.below(3)) { case 0: break; default: k.table = gen_table(s); }
    set_secret(k, gen_secret(s, *k.c));
    return k;
}
static const std::vector<std::vector<int>> FIELDS = {
#include "fields.inc"
};
TmpCurve::~TmpCurve() { EC_GROUP_free(c.grp); BN_free(c.N); BN_free(c.P); BN_free(c.B); }
bool gen_point(Src& s, const Curve& c, EC_POINT* out)
{
    Bytes b = s.noise(c.fb);
    if (s.chance(40)) { size_t z = s.below(c.fb); std::fill(b.begin(), b.begin() + z, 0); }   // x with leading zero bytes
    uint64_t salt = s.bits(2);
    for (int i = 0; i < 60; ++i)
    {
        if (c.m % 8) b[0] &= uint8_t((1 << c.m % 8) - 1);
        if (expand(c, b, out) && !degenerate(c, out)) return true;
        salt = mix64(salt); b[c.fb - 1 - salt % std::min(c.fb, 3)] ^= uint8_t(salt >> 20);
    }
    return false;
}
std::unique_ptr<TmpCurve> gen_synth(Src& s)
{
    std::unique_ptr<TmpCurve> t(new TmpCurve);
    Curve& c = t->c;
    bool newpoint = true;
    if (s.flip())
    {
        c.ex = FIELDS[s.below(FIELDS.size())]; c.a = (int)s.below(2); c.m = c.ex[0]; c.fb = (c.m + 7) / 8;
        c.b = s.noise(c.fb); if (s.chance(60)) { size_t z = s.below(c.fb); std::fill(c.b.begin(), c.b.begin() + z, 0); }
        if (c.m % 8) c.b[0] &= uint8_t((1 << c.m % 8) - 1);
        bool z = true; for (auto x : c.b) z = z && !x;
        if (z) c.b.back() = 1;
        Bn n(b2bn(s.noise(c.fb))); int nbits = c.m - (int)s.below(3);
        BN_mask_bits(n, nbits); BN_set_bit(n, nbits - 1); BN_set_bit(n, 0);
        c.n = bn2b(n, BN_num_bytes(n));
        c.name = "made-up";
    }
    else
    {
        const Curve& o = named((int)s.below(10));
        c.ex = o.ex; c.a = o.a; c.b = o.b; c.n = o.n; c.gx = o.gx; c.gy = o.gy; c.m = o.m; c.fb = o.fb;
        switch (s.below(4))
        {
            case 0: { Bn n(b2bn(o.n)); if (s.flip()) BN_add_word(n, 2 + 2 * s.below(5)); else BN_sub_word(n, 2 + 2 * s.below(5)); c.n = bn2b(n, BN_num_bytes(n)); newpoint = false; c.name = o.name + "-n"; break; }
            case 1: c.a ^= 1; c.name = o.name + "-a"; break;
            case 2: { Bn b(b2bn(o.b)); int i = (int)s.below(c.m); if (BN_is_bit_set(b, i)) BN_clear_bit(b, i); else BN_set_bit(b, i); if (BN_is_zero(b)) BN_set_word(b, 5); c.b = bn2b(b, c.fb); c.name = o.name + "-b"; break; }
            default: c.name = o.name + "-g";
        }
    }
    c.named = -1;
    std::vector<int> arr = c.ex; arr.push_back(0); arr.push_back(-1);
    c.P = BN_new(); BN_GF2m_arr2poly(arr.data(), c.P);
    c.N = b2bn(c.n); c.B = b2bn(c.b); c.nb = BN_num_bytes(c.N);
    Bn a(BN_new()); BN_set_word(a, c.a);
    c.grp = EC_GROUP_new_curve_GF2m(c.P, a, c.B, nullptr);
    if (!c.grp) throw Discard();
    Point g(EC_POINT_new(c.grp));
    if (newpoint) { if (!gen_point(s, c, g)) throw Discard(); }
    else { Bn x(b2bn(c.gx)), y(b2bn(c.gy)); EC_POINT_set_affine_coordinates(c.grp, g, x, y, nullptr); }
    if (!EC_GROUP_set_generator(c.grp, g, c.N, BN_value_one())) throw Discard();
    Bytes p = xy(c, g); c.gx.assign(p.begin(), p.begin() + c.fb); c.gy.assign(p.begin() + c.fb, p.end());
    return t;
}
EC_GROUP* group_with_cofactor(const Curve& c, int how)
{
    EC_GROUP* g = EC_GROUP_dup(c.grp);
    Bn h(BN_new()); BN_set_word(h, how == 2 ? 2 : how == 3 ? 4 : 1);
    if (how && !EC_GROUP_set_generator(g, EC_GROUP_get0_generator(c.grp), c.N, how == 1 ? nullptr : h.get())) { EC_GROUP_free(g); return nullptr; }
    return g;
}
RefKey clone(const RefKey& k)
{
    RefKey r; r.c = k.c; r.le = k.le; r.table = k.table; r.d = k.d; r.Q.reset(EC_POINT_dup(k.Q, k.c->grp));
    return r;
}
std::string describe(const RefKey& k) { return k.c->name + (k.le ? " LE" : " BE") + (k.table.empty() ? " no-table" : k.default_table() ? " default-table" : " table=" + hex(k.table, 4)) + " d=" + hex(k.d, 40); }

Bytes curve_spec(const Curve& c, bool le)
{
    Bytes poly = c.ex.size() == 2 ? der::integer(c.ex[1]) : der::seq({der::integer(c.ex[3]), der::integer(c.ex[2]), der::integer(c.ex[1])});
    Bytes b = bn2b(c.B, c.fb), bp = compress(c, EC_GROUP_get0_generator(c.grp));
    if (le) { b = rev(b); bp = rev(bp); }
    return der::seq({der::seq({der::integer(c.m), poly}), der::integer(c.a), der::oct(b), der::uint_be(c.n), der::oct(bp)});
}
Bytes params(const Curve& c, bool le, const Bytes& table, bool explicitly)
{
    Bytes spec;
    if (c.named >= 0 && !explicitly) { std::string o = "1.2.804.2.1.1.1.1.3.1.1.2." + std::to_string(c.named); spec = der::oid(o.c_str()); }
    else spec = curve_spec(c, le);
    return der::seq({spec, table.empty() ? Bytes() : der::oct(table)});
}
Bytes alg_oid(bool le) { return der::oid(le ? "1.2.804.2.1.1.1.1.3.1.1" : "1.2.804.2.1.1.1.1.3.1.1.1.1"); }
Bytes canonical_table(const Bytes& t) { return t.size() == 64 && !memcmp(t.data(), ref::DEFAULT_PACKED, 64) ? Bytes() : t; }
Bytes spki_with(const RefKey& k, const Bytes& p)
{
    Bytes q = compress(*k.c, k.Q); if (k.le) q = rev(q);
    return der::seq({der::seq({alg_oid(k.le), p}), der::bits(der::oct(q))});
}
Bytes spki(const RefKey& k, bool explicitly) { return spki_with(k, params(*k.c, k.le, explicitly ? k.table : canonical_table(k.table), explicitly)); }
Bytes pkcs8(const RefKey& k, bool explicitly, const Bytes& attrs)
{
    Bytes d = k.d; while (d.size() > 1 && !d[0]) d.erase(d.begin());
    return der::seq({der::integer(0), der::seq({alg_oid(k.le), params(*k.c, k.le, explicitly ? k.table : canonical_table(k.table), explicitly)}), der::oct(rev(d)), attrs.empty() ? Bytes() : der::ctx(0, attrs)});
}
PKey load_pub(const Bytes& b)
{
    uint8_t* h = (uint8_t*)malloc(b.size() ? b.size() : 1); if (!b.empty()) memcpy(h, b.data(), b.size()); // exact-size copy: overreads are seen
    const uint8_t* p = h;
    EVP_PKEY* k = d2i_PUBKEY(nullptr, &p, (long)b.size());
    free(h);
    return PKey(k);
}
PKey load_priv(const Bytes& b)
{
    uint8_t* h = (uint8_t*)malloc(b.size() ? b.size() : 1); if (!b.empty()) memcpy(h, b.data(), b.size());
    const uint8_t* p = h;
    P8 p8(d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long)b.size()));
    free(h);
    if (!p8) return PKey();
    return PKey(EVP_PKCS82PKEY(p8));
}
PKey eng_pub(const RefKey& k, bool explicitly)
{
    PKey p = load_pub(spki(k, explicitly));
    REQUIRE(p, "public key refused: %s %s", describe(k).c_str(), err_text().c_str());
    return p;
}
PKey eng_priv(const RefKey& k, bool explicitly)
{
    PKey p = load_priv(pkcs8(k, explicitly));
    REQUIRE(p, "private key refused: %s %s", describe(k).c_str(), err_text().c_str());
    return p;
}
Bytes out_spki(EVP_PKEY* k, bool* ok)
{
    uint8_t* o = nullptr; int n = i2d_PUBKEY(k, &o);
    if (ok) *ok = n > 0;
    if (n <= 0) { OPENSSL_free(o); if (!ok) FAIL("public key cannot be encoded: %s", err_text().c_str()); return Bytes(); }
    Bytes r(o, o + n); OPENSSL_free(o);
    return r;
}
Bytes out_pkcs8(EVP_PKEY* k, bool* ok)
{
    P8 p8(EVP_PKEY2PKCS8(k));
    if (ok) *ok = p8.get() != nullptr;
    if (!p8) { if (!ok) FAIL("private key cannot be encoded: %s", err_text().c_str()); return Bytes(); }
    uint8_t* o = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO(p8, &o);
    if (n <= 0) FAIL("private key info cannot be serialised");
    Bytes r(o, o + n); OPENSSL_free(o);
    return r;
}

// ------------------------------------------------------------------ signatures
static BIGNUM* hash_elem(const Curve& c, const Bytes& tbs)
{
    BIGNUM* h = b2bn(rev(tbs));
    BN_mask_bits(h, c.m);
    if (BN_is_zero(h)) BN_one(h);
    return h;
}
static bool elem_to_r(const Curve& c, BIGNUM* y) { BN_mask_bits(y, BN_num_bits(c.N) - 1); return !BN_is_zero(y); }
bool sign(const RefKey& k, const Bytes& tbs, const BIGNUM* e, Sig* out)
{
    const Curve& c = *k.c;
    if (BN_is_zero(e)) return false;
    BnCtx ctx(BN_CTX_new());
    Bn h(hash_elem(c, tbs)), x(BN_new()), r(BN_new()), s(BN_new()), d(b2bn(k.d));
    Point R(EC_POINT_new(c.grp));
    EC_POINT_mul(c.grp, R, e, nullptr, nullptr, ctx);
    EC_POINT_get_affine_coordinates(c.grp, R, x, nullptr, ctx);
    if (BN_is_zero(x)) return false;
    BN_GF2m_mod_mul(r, h, x, c.P, ctx);
    if (!elem_to_r(c, r)) return false;
    BN_mod_mul(s, d, r, c.N, ctx); BN_mod_add(s, s, e, c.N, ctx);
    if (BN_is_zero(s)) return false;
    out->s = bn2b(s, c.nb); out->r = bn2b(r, c.nb);
    return true;
}
bool verify(const Curve& c, const EC_POINT* Q, const Bytes& tbs, const BIGNUM* s, const BIGNUM* r)
{
    if (BN_is_zero(s) || BN_is_zero(r) || BN_cmp(s, c.N) >= 0 || BN_cmp(r, c.N) >= 0) return false;
    BnCtx ctx(BN_CTX_new());
    Point R(EC_POINT_new(c.grp)), T(EC_POINT_new(c.grp));
    EC_POINT_mul(c.grp, R, s, nullptr, nullptr, ctx);
    EC_POINT_mul(c.grp, T, nullptr, Q, r, ctx);
    EC_POINT_add(c.grp, R, R, T, ctx);
    if (EC_POINT_is_at_infinity(c.grp, R)) return false;
    Bn h(hash_elem(c, tbs)), x(BN_new()), y(BN_new());
    EC_POINT_get_affine_coordinates(c.grp, R, x, nullptr, ctx);
    BN_GF2m_mod_mul(y, h, x, c.P, ctx);
    elem_to_r(c, y);
    return BN_cmp(y, r) == 0;
}
Bytes sig_raw(const RefKey& k, const Sig& g)
{
    Bytes b = g.s; b.insert(b.end(), g.r.begin(), g.r.end());
    return k.le ? rev(b) : b;
}
bool verify_bytes(const RefKey& k, const Bytes& tbs, const Bytes& sig)
{
    Bytes v = sig;
    const uint8_t* p = sig.data();
    ASN1_OCTET_STRING* o = d2i_ASN1_OCTET_STRING(nullptr, &p, (long)sig.size());
    if (o) { v.assign(ASN1_STRING_get0_data(o), ASN1_STRING_get0_data(o) + ASN1_STRING_length(o)); ASN1_OCTET_STRING_free(o); }
    ERR_clear_error();
    if (v.size() % 2 || v.size() < 2 * (size_t)k.c->nb) return false;
    if (k.le) v = rev(v);
    Bn s(b2bn(Bytes(v.begin(), v.begin() + v.size() / 2))), r(b2bn(Bytes(v.begin() + v.size() / 2, v.end())));
    return verify(*k.c, k.Q, tbs, s, r);
}
}
