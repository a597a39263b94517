#include "cont.h"
#include <openssl/sha.h>
#include <openssl/hmac.h>
#include <openssl/pem.h>
#include <map>

namespace ct
{
using dk::RefKey; using dk::Curve;
Big g_big;
static void put(Bytes& o, const Bytes& b) { o.insert(o.end(), b.begin(), b.end()); }
static Bytes cat(std::initializer_list<Bytes> l) { return der::cat(l); }

// ---------------------------------------------------------------- passwords
static void add_cp(Password& p, uint32_t c)
{
    auto u8 = [&](uint32_t x) { p.utf8.push_back(uint8_t(x)); };
    auto u16 = [&](uint32_t x) { p.utf16be.push_back(uint8_t(x >> 8)); p.utf16be.push_back(uint8_t(x)); };
    if (c < 0x80) u8(c);
    else if (c < 0x800) { u8(0xc0 | c >> 6); u8(0x80 | (c & 63)); }
    else if (c < 0x10000) { u8(0xe0 | c >> 12); u8(0x80 | (c >> 6 & 63)); u8(0x80 | (c & 63)); }
    else { u8(0xf0 | c >> 18); u8(0x80 | (c >> 12 & 63)); u8(0x80 | (c >> 6 & 63)); u8(0x80 | (c & 63)); }
    if (c < 0x10000) u16(c);
    else { c -= 0x10000; u16(0xd800 | c >> 10); u16(0xdc00 | (c & 0x3ff)); }
}
Password gen_password(Src& s, size_t maxChars)
{
    Password p;
    size_t n = 1 + s.below(maxChars);
    if (s.chance(10)) n += s.below(200);
    bool big = g_big.pw && s.flip(); if (big) n = 200 + s.below(g_big.pw);
    unsigned style = (unsigned)s.below(5);
    for (size_t i = 0; i < n; ++i)
    {
        uint32_t c;
        if (big && i >= 24) { uint32_t k = uint32_t(i * 2654435761u >> 7); add_cp(p, (k & 64) ? 0x410 + (k & 31) : 33 + (k & 63)); continue; }
        switch (style == 4 ? (unsigned)s.below(4) : style)
        {
            case 0: c = 33 + (uint32_t)s.below(94); break;
            case 1: c = 0x410 + (uint32_t)s.below(0x50); break;
            case 2: c = (uint32_t)s.bits(2); if (c >= 0xd800 && c < 0xe000) c = 0x20ac; if (!c) c = 1; break;
            default: c = 0x10000 + (uint32_t)s.below(0x100000);
        }
        add_cp(p, c);
    }
    return p;
}
Password other_password(Src& s, const Password& p)
{
    Password q;
    // decode, change, encode
    std::vector<uint32_t> cp;
    for (size_t i = 0; i + 1 < p.utf16be.size(); i += 2)
    {
        uint32_t c = p.utf16be[i] << 8 | p.utf16be[i + 1];
        if (c >= 0xd800 && c < 0xdc00) { i += 2; c = 0x10000 + ((c & 0x3ff) << 10 | ((p.utf16be[i] << 8 | p.utf16be[i + 1]) & 0x3ff)); }
        cp.push_back(c);
    }
    switch (s.below(6))
    {
        case 0: cp[s.below(cp.size())] ^= 1; break;
        case 1: cp.push_back(33 + (uint32_t)s.below(90)); break;
        case 2: if (cp.size() > 1) cp.pop_back(); else cp.push_back('x'); break;
        case 3: { size_t i = s.below(cp.size()); if (cp[i] < 128 && isalpha((int)cp[i])) cp[i] ^= 0x20; else cp[i] ^= 2; break; }
        case 4: cp.insert(cp.begin(), ' '); break;
        default: return [&] { Password r = gen_password(s); if (r.utf8 == p.utf8) { add_cp(r, '!'); } return r; }();
    }
    for (uint32_t c : cp) { if (c >= 0xd800 && c < 0xe000) c = 0x2248; if (!c) c = 3; add_cp(q, c); }
    if (q.utf8 == p.utf8) add_cp(q, '!');
    return q;
}

// ---------------------------------------------------------------- certificates
Bytes gen_cert(Src& s, size_t pad)
{
    auto name = [&](const Bytes& cn) { return der::seqb(der::setb(der::seq({der::oid("2.5.4.3"), der::tlv(0x0c, cn)}))); };
    Bytes cn; { size_t n = 1 + s.below(20); for (size_t i = 0; i < n; ++i) cn.push_back(uint8_t('a' + s.below(26))); }
    static const Bytes icn{'C', 'A'};
    Bytes serial = s.noise(1 + s.below(19)); serial[0] &= 0x7f;
    Bytes alg, spki;
    if (s.flip()) { alg = der::seqb(der::oid("1.3.101.112")); spki = der::seq({alg, der::bits(s.noise(32))}); }
    else
    {
        alg = der::seqb(dk::alg_oid(true));
        const Curve& c = dk::named((int)s.below(10));
        RefKey k; k.c = &c; k.le = true; k.Q.reset(EC_POINT_dup(EC_GROUP_get0_generator(c.grp), c.grp));
        spki = dk::spki(k);
    }
    static const char* t0 = "200101000000Z"; static const char* t1 = "491231235959Z";
    Bytes val = der::seq({der::tlv(0x17, Bytes(t0, t0 + 13)), der::tlv(0x17, Bytes(t1, t1 + 13))});
    Bytes ext;
    if (g_big.bytes && s.below(3) == 0) pad = g_big.bytes, ext = der::ctx(3, der::seqb(der::seq({der::oid("1.2.3.4.5"), der::oct(s.noise(1 + s.below(pad)))})));
    else if (pad) ext = der::ctx(3, der::seqb(der::seq({der::oid("1.2.3.4.5"), der::oct(s.noise(s.below(pad + 1)))})));
    Bytes tbs = der::seq({der::ctx(0, der::integer(2)), der::uint_be(serial), alg, name(icn), val, name(cn), spki, ext});
    return der::seq({tbs, alg, der::bits(s.noise(64))});
}

// ---------------------------------------------------------------- keys
Bytes attr(const char* o, const Bytes& values) { return der::seq({der::oid(o), der::setb(values)}); }
Bytes curve_attr_value(const Curve& c, Src& s)
{
    return der::seq({dk::curve_spec(c, false), der::oct(s.flip() ? Bytes(ref::DEFAULT_PACKED, ref::DEFAULT_PACKED + 64) : s.noise(s.below(70))), der::oct(s.noise(s.below(20)))});
}
Bytes key_attr_value(const RefKey& k, Src& s)
{
    // bit i of the number is bit i of the string, least significant first
    size_t bitsN = (size_t)k.c->m; size_t n = (bitsN + 7) / 8;
    Bytes d = k.d; while (d.size() > 1 && !d[0]) d.erase(d.begin());
    bool min = s.chance(80);
    size_t len = min ? d.size() : std::max(n, d.size());
    if (s.chance(40)) len += s.below(9);
    Bytes o(len);
    for (size_t i = 0; i < d.size(); ++i)
    {
        uint8_t b = d[d.size() - 1 - i], r = 0;
        for (int j = 0; j < 8; ++j) if (b >> j & 1) r |= uint8_t(0x80 >> j);
        o[i] = r;
    }
    if (s.flip()) return der::oct(o);
    uint8_t unused = 0;
    if (s.flip()) { while (unused < 7 && !(o.back() >> unused & 1)) ++unused; if (s.flip()) unused = unused ? uint8_t(s.below(unused + 1)) : 0; }
    return der::bits(o, unused);
}
Key gen_plain_key(Src& s, Bytes* dr)
{
    Key k;
    if (s.chance(40)) // another algorithm
    {
        if (s.flip()) k.other = der::seq({der::integer(0), der::seqb(der::oid("1.3.101.112")), der::oct(der::oct(s.noise(32)))});
        else
        {
            Bytes d = s.noise(32); d[0] &= 0x7f; d[31] |= 1;
            k.other = der::seq({der::integer(0), der::seq({der::oid("1.2.840.10045.2.1"), der::oid("1.2.840.10045.3.1.7")}), der::oct(der::seq({der::integer(1), der::oct(d)}))});
        }
        *dr = k.other;
        return k;
    }
    k.k = std::make_shared<RefKey>(dk::gen_key(s, 1));
    *dr = dk::pkcs8(*k.k, s.chance(80));
    return k;
}
P8Out gen_p8(Src& s, bool second, int toys)
{
    P8Out o;
    if (!second) { Key k = gen_plain_key(s, &o.der); o.keys.push_back(k); return o; }
    Key k; k.k = std::make_shared<RefKey>(dk::gen_key(s, toys));
    o.keys.push_back(k);
    std::vector<Bytes> at;
    if (s.chance(120)) at.push_back(attr("1.2.840.113549.1.9.20", der::tlv(0x1e, s.raw(2 * s.below(20)))));
    unsigned what = (unsigned)s.below(8); // mostly a second key
    if (what < 6)
    {
        Key k2; k2.k = std::make_shared<RefKey>();
        k2.k->c = &dk::gen_curve(s, toys); k2.k->le = true; dk::set_secret(*k2.k, dk::gen_secret(s, *k2.k->c));
        Bytes cv = curve_attr_value(*k2.k->c, s), kv = key_attr_value(*k2.k, s);
        if (s.chance(40)) cv = cat({s.flip() ? der::integer(7) : der::seqb(der::integer(1)), cv});
        if (s.chance(40)) kv = cat({s.flip() ? der::integer(7) : der::null(), kv});
        if (s.chance(30)) { Bytes& x = s.flip() ? cv : kv; put(x, der::integer(9)); }
        Bytes a = attr("1.3.6.1.4.1.19398.1.1.2.2", cv), b = attr("1.3.6.1.4.1.19398.1.1.2.3", kv);
        bool swp = s.flip();
        at.push_back(swp ? b : a);
        if (s.chance(80)) at.push_back(attr("1.3.6.1.4.1.19398.1.1.2.1", der::oct(s.noise(s.below(60)))));
        at.push_back(swp ? a : b);
        k2.second = true; o.keys.push_back(k2);
    }
    else if (what == 6) // only one half of it: no second key
    {
        RefKey k2; k2.c = &dk::gen_curve(s, toys); k2.le = true; dk::set_secret(k2, dk::gen_secret(s, *k2.c));
        if (s.flip()) at.push_back(attr("1.3.6.1.4.1.19398.1.1.2.2", curve_attr_value(*k2.c, s)));
        else at.push_back(attr("1.3.6.1.4.1.19398.1.1.2.3", key_attr_value(k2, s)));
    }
    if (g_big.bytes && s.below(3) == 0) at.push_back(attr("1.2.3.4", der::oct(s.noise(1 + s.below(g_big.bytes)))));
    else if (s.chance(60)) at.push_back(attr("1.2.3.4", der::oct(s.noise(s.len(300)))));
    Bytes all; for (auto& a : at) put(all, a);
    o.der = dk::pkcs8(*k.k, s.chance(80), all);
    return o;
}

// ---------------------------------------------------------------- JKS
static Bytes sha1(std::initializer_list<Bytes> l) { Bytes a = cat(l), d(20); SHA1(a.data(), a.size(), d.data()); return d; }
static Bytes protect(const Bytes& plain, const Bytes& salt, const Password& pw)
{
    Bytes enc(plain.size()), dg = salt;
    for (size_t i = 0; i < plain.size(); ++i)
    {
        if (i % 20 == 0) dg = sha1({pw.utf16be, dg});
        enc[i] = plain[i] ^ dg[i % 20];
    }
    return cat({salt, enc, sha1({pw.utf16be, plain})});
}
static Bytes maybe_mutate(Fault* f, const Bytes& d)
{
    if (!f || !f->hit()) return d;
    return calm(mut::der_mutate(*f->s, d, &f->how));
}
static uint64_t odd_len(Fault* f, uint64_t n, int bytes)
{
    if (!f || !f->hit()) return n;
    Src& s = *f->s;
    f->how += "len ";
    uint64_t mx = bytes == 2 ? 0xffff : 0xffffffff;
    switch (s.below(8))
    {
        case 0: return n + 1;
        case 1: return n ? n - 1 : mx;
        case 2: return 0;
        case 3: return mx;
        case 4: return mx / 2 + s.below(2);
        case 5: return n + s.below(64);
        case 6: return s.bits(bytes);
        default: return (mx - n + 1 - s.below(60)) & mx;
    }
}
static Bytes u16(uint64_t n) { return Bytes{uint8_t(n >> 8), uint8_t(n)}; }
static Bytes u32(uint64_t n) { return Bytes{uint8_t(n >> 24), uint8_t(n >> 16), uint8_t(n >> 8), uint8_t(n)}; }
Container gen_jks(Src& s, const JksOpt& o, Fault* f)
{
    Container c; c.kind = 0;
    c.jstore = gen_password(s); c.jkey = s.flip() ? c.jstore : s.below(3) == 0 ? other_password(s, c.jstore) : gen_password(s);
    c.pass = c.jstore.utf8; c.keypass = c.jkey.utf8;
    Bytes b = unhex(s.chance(60) ? "cececece" : "feedfeed");
    if (o.odd == 1) { static const char* m[] = {"feedfeee", "edfeedfe", "cecececf", "feedface", "00000000", "feedcece"}; b = unhex(m[s.below(6)]); }
    static const uint32_t versions[] = {0, 1, 3, 0x02000000, 0x102, 0x10002, 0xffffffff};
    put(b, u32(o.odd == 2 ? versions[s.below(7)] : f && f->hit() ? s.bits(4) : 2));
    size_t n = s.below(o.maxEntries + 1);
    if (s.chance(6)) n += s.below(12);
    if (s.chance(2)) n += s.below(60);
    if (g_big.many) n = 1 + s.below(g_big.many);
    if (o.odd && !n) n = 1;
    size_t at = o.odd ? s.below(n) : n;
    Bytes body;
    char d[200];
    auto alias = [&] { size_t l = s.chance(20) ? s.below(400) : s.chance(2) ? 65535 - s.below(s.flip() ? 2 : 33000) : s.below(12); Bytes a(l); for (auto& x : a) x = uint8_t('a' + s.below(26)); if (l > 3 && s.chance(60)) { a[0] = 0xd0; a[1] = 0xb0; } return a; };
    bool badcert = false;
    auto cert = [&] {
        Bytes x = gen_cert(s, s.chance(150) ? 0 : o.pad); c.want.certs.push_back(x);
        if (badcert) { if (s.flip()) x.resize(s.below(x.size())); else x = der::seq({der::integer(1), der::oct(s.noise(30))}); badcert = false; }
        static const char* t = "X.509"; Bytes ty(t, t + 5);
        Bytes y = maybe_mutate(f, x);
        put(body, u16(odd_len(f, ty.size(), 2))); put(body, ty); put(body, u32(odd_len(f, y.size(), 4))); put(body, y);
    };
    snprintf(d, sizeof d, "jks entries=%zu", n); c.desc = d;
    for (size_t i = 0; i < n; ++i)
    {
        int odd = i == at ? o.odd : 0;
        bool key = s.below(3) != 0;
        if (odd == 4 || odd == 5) key = true;
        if (odd == 6) badcert = true;
        static const uint32_t tags[] = {0, 3, 4, 0x101, 0x01000000, 0x02000000, 0x10002, 0xffffffff};
        put(body, u32(odd == 3 ? tags[s.below(8)] : f && f->hit() ? s.below(5) : key ? 1 : 2));
        Bytes al = alias();
        put(body, u16(odd_len(f, al.size(), 2))); put(body, al); put(body, s.raw(8));
        if (key)
        {
            P8Out p = gen_p8(s, o.seconds && s.flip());
            for (auto& k : p.keys) c.want.keys.push_back(k);
            Bytes pl = maybe_mutate(f, p.der);
            if (odd == 5) switch (s.below(4)) { case 0: pl.resize(s.below(pl.size())); break; case 1: pl = s.noise(1 + s.below(60)); break; case 2: pl = der::seq({der::integer(0), der::seq({der::oid("1.2.3.4.5"), der::null()}), der::oct(s.noise(20))}); break; default: pl = der::seq({der::integer(0), der::seq({dk::alg_oid(s.flip()), der::null()}), der::oct(s.noise(20))}); }
            if (f && f->hit()) pl.resize(s.below(3) ? s.below(pl.size() + 1) : 0);
            Bytes prot = protect(pl, s.noise(20), c.jkey);
            if (f && f->hit()) { prot.resize(s.below(45)); f->how += "short-protected "; }
            Bytes e = maybe_mutate(f, der::seq({der::seq({der::oid(odd == 4 ? (s.flip() ? "1.3.6.1.4.1.42.2.19.1" : s.flip() ? "1.3.6.1.4.1.42.2.17.1.2" : "1.2.840.113549.1.5.3") : f && f->hit() ? "1.3.6.1.4.1.42.2.19.1" : "1.3.6.1.4.1.42.2.17.1.1"), der::null()}), der::oct(prot)}));
            put(body, u32(odd_len(f, e.size(), 4))); put(body, e);
            size_t nc = s.below(4) == 0 ? 0 : 1 + s.below(3); if (s.chance(3)) nc += s.below(40); if (g_big.many && s.below(20) == 0) nc += s.below(g_big.many);
            if (odd == 6 && !nc) nc = 1;
            put(body, u32(odd_len(f, nc, 4)));
            snprintf(d, sizeof d, " key(%zu keys, %zu certs, p8 %zu)", p.keys.size(), nc, p.der.size()); c.desc += d;
            for (size_t j = 0; j < nc; ++j) cert();
        }
        else { cert(); c.desc += " cert"; }
    }
    put(b, u32(o.odd == 7 ? n + 1 + (s.flip() ? s.below(200) : s.bits(3)) : o.odd == 8 ? s.below(n) : odd_len(f, n, 4))); put(b, body);
    if (o.odd) c.readable = false;
    static const char* w = "Mighty Aphrodite";
    put(b, sha1({c.jstore.utf16be, Bytes(w, w + 16), b}));
    c.bytes = b;
    return c;
}

Container jks_of(const std::vector<Bytes>& p8, Src& s)
{
    Container c; c.kind = 0; c.jstore = gen_password(s, 6); c.jkey = c.jstore; c.pass = c.keypass = c.jstore.utf8;
    Bytes b = unhex("feedfeed00000002"); put(b, u32(p8.size()));
    for (auto& p : p8)
    {
        put(b, u32(1)); put(b, u16(1)); b.push_back('a'); put(b, Bytes(8));
        Bytes e = der::seq({der::seq({der::oid("1.3.6.1.4.1.42.2.17.1.1"), der::null()}), der::oct(protect(p, s.noise(20), c.jkey))});
        put(b, u32(e.size())); put(b, e); put(b, u32(0));
    }
    static const char* w = "Mighty Aphrodite";
    put(b, sha1({c.jstore.utf16be, Bytes(w, w + 16), b}));
    c.bytes = b; c.desc = "jks";
    return c;
}

// ---------------------------------------------------------------- Key-6
static Bytes kdf6(const Bytes& pw)
{
    static thread_local std::map<Bytes, Bytes> m;
    auto it = m.find(pw); if (it != m.end()) return it->second;
    Bytes k = ref::key6_kdf(pw);
    if (m.size() < 400) m[pw] = k;
    return k;
}
Container gen_key6(Src& s, const Key6Opt& o, Fault* f)
{
    Container c; c.kind = 1;
    if (o.fewpw && !s.chance(25))
    {
        static const char* pool[] = {"tect4", "", "a", "0123456789abcdef0123456789abcdef", "0123456789abcdef0123456789abcdef0", "\xd0\xbf\xd0\xb0\xd1\x80\xd0\xbe\xd0\xbb\xd1\x8c", "password password", "31 bytes of a password, exactly"};
        const char* p = pool[s.below(8)]; c.pass.assign(p, p + strlen(p));
    }
    else c.pass = g_big.pw ? s.noise(s.below(g_big.pw)) : s.blob(s.len(100));
    P8Out p;
    if (o.badness == 2) { p.der = s.flip() ? s.noise(1 + s.below(300)) : der::seq({der::integer(0), der::oct(s.noise(s.below(100)))}); }
    else p = gen_p8(s, true);
    c.want.keys = p.keys;
    Bytes pl = maybe_mutate(f, p.der);
    size_t drop = 0;
    if (o.badness == 1)
    {
        // the payload ends before the structure does: by up to a block, or more
        drop = s.flip() ? 1 + s.below(8) : 1 + s.below(pl.size());
        size_t keep = pl.size() - drop; keep -= keep % 8;
        pl.resize(keep); c.readable = false;
    }
    if (o.badness == 2 || o.badness == 3) c.readable = false;
    Bytes padb = s.raw(8);
    while (pl.size() % 8) pl.push_back(padb[pl.size() % 8]);
    if (g_big.bytes ? s.flip() : s.chance(60)) { size_t extra = 8 * s.below(g_big.bytes ? g_big.bytes / 8 : 4); Bytes x = s.noise(extra); if (o.badness != 1) put(pl, x); }
    Bytes ct = ref::ecb_enc(ref::dflt(), kdf6(c.pass).data(), pl);
    if (o.badness == 4) { Bytes t = s.noise(1 + s.below(7)); put(ct, t); }
    size_t cut; bool pad = true;
    switch (s.below(6))
    {
        case 0: cut = ct.size(); pad = s.flip(); break;
        case 1: cut = ct.size() >= 8 ? ct.size() - 8 : 0; break;
        case 2: cut = ct.size() > 4 ? ct.size() - 1 - s.below(std::min<size_t>(ct.size() - 1, 16)) : 0; break;
        case 3: cut = 0; break;
        default: cut = s.below(ct.size() + 1);
    }
    Bytes par = der::oct(s.noise(4));
    if (pad) put(par, der::oct(Bytes(ct.begin() + cut, ct.end()))); else cut = ct.size();
    const char* type = "1.3.6.1.4.1.19398.1.1.1.2";
    static const char* others[] = {"1.3.6.1.4.1.19398.1.1.1.1", "1.3.6.1.4.1.19398.1.1.1", "1.3.6.1.4.1.19398.1.1.1.2.1", "1.3.6.1.4.1.19398.1.1.1.3", "1.2.840.113549.1.7.1"};
    if (o.badness == 3) type = others[s.below(5)];
    c.bytes = der::seq({der::seq({der::oid(type), der::seqb(par)}), der::oct(Bytes(ct.begin(), ct.begin() + cut))});
    if (f) c.bytes = maybe_mutate(f, c.bytes);
    char d[200]; snprintf(d, sizeof d, "key6 pass=%s keys=%zu payload=%zu data=%zu%s drop=%zu", hex(c.pass, 12).c_str(), c.want.keys.size(), pl.size(), cut, pad ? "" : " no pad", drop); c.desc = d;
    return c;
}

// ---------------------------------------------------------------- PKCS#12
static Bytes dg(int kind, const Bytes& b)
{
    if (kind == 0) return ref::hash(ref::dflt(), b);
    Bytes o(kind == 1 ? 20 : 32);
    if (kind == 1) SHA1(b.data(), b.size(), o.data()); else SHA256(b.data(), b.size(), o.data());
    return o;
}
Bytes pkcs12_kdf(int hk, const Bytes& pw, const Bytes& salt, int id, int iter, size_t n)
{
    size_t v = hk == 0 ? 32 : 64, u = hk == 1 ? 20 : 32;
    auto fill = [&](const Bytes& x) { Bytes r; if (x.empty()) return r; size_t l = v * ((x.size() + v - 1) / v); for (size_t i = 0; i < l; ++i) r.push_back(x[i % x.size()]); return r; };
    Bytes D(v, uint8_t(id)), I = cat({fill(salt), fill(pw)}), out;
    while (out.size() < n)
    {
        Bytes A = dg(hk, cat({D, I}));
        for (int i = 1; i < iter; ++i) A = dg(hk, A);
        put(out, A);
        Bytes B(v); for (size_t i = 0; i < v; ++i) B[i] = A[i % u];
        for (size_t j = 0; j < I.size(); j += v)
        {
            unsigned cy = 1;
            for (size_t k = v; k--;) { unsigned t = I[j + k] + B[k] + cy; I[j + k] = uint8_t(t); cy = t >> 8; }
        }
    }
    out.resize(n);
    return out;
}
static Bytes cbc(const char* alg, const Bytes& key, const Bytes& iv, const Bytes& in)
{
    EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new(); Bytes o(in.size() + 32); int n = 0, m = 0;
    const EVP_CIPHER* e = !strcmp(alg, "aes") ? EVP_aes_256_cbc() : EVP_des_ede3_cbc();
    if (!EVP_EncryptInit_ex(x, e, nullptr, key.data(), iv.data()) || !EVP_EncryptUpdate(x, o.data(), &n, in.data(), (int)in.size()) || !EVP_EncryptFinal_ex(x, o.data() + n, &m)) { fprintf(stderr, "reference encryption failed\n"); abort(); }
    EVP_CIPHER_CTX_free(x);
    o.resize(n + m);
    return o;
}
// AlgorithmIdentifier and ciphertext
static void pbe(Src& s, const Password& pw, const Bytes& plain, Bytes* alg, Bytes* out, std::string* d)
{
    Bytes salt = s.noise(8 + s.below(25)); int it = 1 + (int)s.below(20);
    unsigned w = (unsigned)s.below(5);
    if (w == 4)
    {
        Bytes pz = pw.utf16be; pz.push_back(0); pz.push_back(0);
        Bytes k = pkcs12_kdf(1, pz, salt, 1, it, 24), iv = pkcs12_kdf(1, pz, salt, 2, it, 8);
        *alg = der::seq({der::oid("1.2.840.113549.1.12.1.3"), der::seq({der::oct(salt), der::integer(it)})});
        *out = cbc("3des", k, iv, plain); *d += " 3des";
        return;
    }
    bool dprf = w == 0 || w == 2, dcip = w == 0 || w == 3;
    Bytes key;
    if (dprf) key = ref::pbkdf2(ref::dflt(), pw.utf8, salt, it, 32);
    else { key.resize(32); PKCS5_PBKDF2_HMAC((const char*)pw.utf8.data(), (int)pw.utf8.size(), salt.data(), (int)salt.size(), it, EVP_sha256(), 32, key.data()); }
    Bytes prf = dprf ? der::seq({der::oid("1.2.804.2.1.1.1.1.1.2"), der::null()}) : der::seq({der::oid("1.2.840.113549.2.9"), der::null()});
    Bytes kdf = der::seq({der::oid("1.2.840.113549.1.5.12"), der::seq({der::oct(salt), der::integer(it), prf})});
    Bytes enc;
    if (dcip)
    {
        Bytes iv = s.noise(8), tb = gen_table(s);
        enc = der::seq({der::oid("1.2.804.2.1.1.1.1.1.1.3"), der::seq({der::oct(iv), der::oct(tb)})});
        *out = ref::cfb(ref::unpack(tb.data()), key.data(), iv.data(), plain, true);
    }
    else
    {
        Bytes iv = s.noise(16);
        enc = der::seq({der::oid("2.16.840.1.101.3.4.1.42"), der::oct(iv)});
        *out = cbc("aes", key, iv, plain);
    }
    *alg = der::seq({der::oid("1.2.840.113549.1.5.13"), der::seq({kdf, enc})});
    *d += dprf ? (dcip ? " dstu" : " dstu-kdf/aes") : (dcip ? " sha-kdf/dstu" : " aes");
}
static Bytes bag(const char* o, const Bytes& v, Src& s)
{
    Bytes at; if (s.flip()) at = der::setb(der::seq({der::oid("1.2.840.113549.1.9.21"), der::setb(der::oct(s.raw(s.below(6))))}));
    return der::seq({der::oid(o), der::ctx(0, v), at});
}
struct P12Ctx { Src& s; Container& c; const P12Opt& o; Fault* f; Password pw; int bags = 0; int badat = -1; };
static Bytes gen_bag(P12Ctx& x, int depth)
{
    Src& s = x.s;
    bool bad = x.bags++ == x.badat;
    unsigned w = (unsigned)s.below(depth < (g_big.many ? 30 : 3) ? 14 : 11);
    if (bad) w %= 9;
    if (w < 3)
    {
        Bytes d; P8Out p = gen_p8(s, s.chance(50)); d = p.der;
        if (!bad) x.c.want.keys.push_back(p.keys[0]);
        else { d = der::seq({der::integer(0), der::seq({dk::alg_oid(true), der::integer(5)}), der::oct(s.noise(20))}); x.c.desc += " bad-keybag"; }
        x.c.desc += " key";
        return bag("1.2.840.113549.1.12.10.1.1", maybe_mutate(x.f, d), s);
    }
    if (w < 6)
    {
        P8Out p = gen_p8(s, s.chance(50)); Bytes alg, ct;
        x.c.desc += " shrouded";
        Password pw = x.pw; Bytes pl = maybe_mutate(x.f, p.der);
        if (bad) { if (s.flip()) pw = other_password(s, pw); else pl = der::seq({der::integer(0), der::seq({dk::alg_oid(true), der::integer(5)}), der::oct(s.noise(20))}); x.c.desc += " bad"; }
        else x.c.want.keys.push_back(p.keys[0]);
        pbe(s, pw, pl, &alg, &ct, &x.c.desc);
        return bag("1.2.840.113549.1.12.10.1.2", maybe_mutate(x.f, der::seq({alg, der::oct(ct)})), s);
    }
    if (w < 9)
    {
        Bytes ce = gen_cert(s, x.o.pad); x.c.desc += " cert";
        const char* t = "1.2.840.113549.1.9.22.1";
        if (bad) { if (s.flip()) t = "1.2.840.113549.1.9.22.2"; else ce.resize(s.below(ce.size())); x.c.desc += " bad"; }
        else x.c.want.certs.push_back(ce);
        return bag("1.2.840.113549.1.12.10.1.3", der::seq({der::oid(t), der::ctx(0, der::oct(maybe_mutate(x.f, ce)))}), s);
    }
    if (w < 11)
    {
        x.c.desc += " other";
        if (s.flip()) return bag("1.2.840.113549.1.12.10.1.5", der::seq({der::oid("1.2.3.4"), der::ctx(0, der::oct(s.noise(10)))}), s);
        return bag("1.2.3.4.5.6", der::oct(s.noise(10)), s);
    }
    x.c.desc += " (";
    size_t n = s.below(4); Bytes b; if (g_big.many && s.below(8) == 0) n += s.below(std::min<size_t>(g_big.many / 4 + 1, 12));
    for (size_t i = 0; i < n; ++i) put(b, gen_bag(x, depth + 1));
    x.c.desc += " )";
    return bag("1.2.840.113549.1.12.10.1.6", der::seqb(b), s);
}
Container gen_p12(Src& s, const P12Opt& o, Fault* f)
{
    Container c; c.kind = 2; c.desc = "p12";
    Password pw = gen_password(s); c.pass = pw.utf8; c.jstore = pw;
    P12Ctx x{s, c, o, f, pw};
    if (o.bad) x.badat = (int)s.below(2);
    size_t ns = 1 + s.below(3); if (g_big.many && s.flip()) ns += s.below(g_big.many / 4 + 1);
    Bytes safes;
    for (size_t i = 0; i < ns; ++i)
    {
        size_t nb = s.below(4); Bytes bags; if (g_big.many && s.below(ns) == 0) nb += s.below(g_big.many);
        if (i == 0 && o.bad) nb = 2;
        for (size_t j = 0; j < nb; ++j) put(bags, gen_bag(x, 0));
        if (i + 1 == ns && c.want.keys.empty() && c.want.certs.empty() && !o.bad) { Bytes ce = gen_cert(s, 0); c.want.certs.push_back(ce); put(bags, bag("1.2.840.113549.1.12.10.1.3", der::seq({der::oid("1.2.840.113549.1.9.22.1"), der::ctx(0, der::oct(ce))}), s)); c.desc += " cert"; }
        Bytes inner = maybe_mutate(f, der::seqb(bags));
        if (s.flip()) { put(safes, der::seq({der::oid("1.2.840.113549.1.7.1"), der::ctx(0, der::oct(inner))})); c.desc += " |plain|"; }
        else
        {
            Bytes alg, ct; pbe(s, pw, inner, &alg, &ct, &c.desc); c.desc += " |enc|";
            put(safes, der::seq({der::oid("1.2.840.113549.1.7.6"), der::ctx(0, der::seq({der::integer(0), der::seq({der::oid("1.2.840.113549.1.7.1"), alg, der::tlv(0x80, ct)})}))}));
        }
        if (s.chance(12)) put(safes, der::seq({der::oid("1.2.3.9"), der::ctx(0, der::oct(s.noise(5)))})); // of another kind: passed over
    }
    if (o.bad) c.readable = false;
    Bytes auth = maybe_mutate(f, der::seqb(safes));
    int hk = (int)s.below(3), it = 1 + (int)s.below(20); Bytes salt = s.noise(8 + s.below(25));
    Bytes pz = pw.utf16be; pz.push_back(0); pz.push_back(0);
    Bytes mk = pkcs12_kdf(hk, pz, salt, 3, it, hk == 1 ? 20 : 32), mac;
    if (hk == 0) mac = ref::hmac(ref::dflt(), mk, auth);
    else { unsigned n = 0; mac.resize(hk == 1 ? 20 : 32); HMAC(hk == 1 ? EVP_sha1() : EVP_sha256(), mk.data(), (int)mk.size(), auth.data(), auth.size(), mac.data(), &n); }
    c.desc += hk == 0 ? " mac=dstu" : hk == 1 ? " mac=sha1" : " mac=sha256";
    Bytes hoid = der::oid(hk == 0 ? "1.2.804.2.1.1.1.1.2.1" : hk == 1 ? "1.3.14.3.2.26" : "2.16.840.1.101.3.4.2.1");
    Bytes content = der::seq({der::oid("1.2.840.113549.1.7.1"), der::ctx(0, der::oct(auth))});
    Bytes md = der::seq({der::seq({der::seq({hoid, der::null()}), der::oct(mac)}), der::oct(salt), it == 1 && s.flip() ? Bytes() : der::integer(it)});
    c.bytes = der::seq({der::integer(3), content, md});
    // where the octets stand
    size_t tail = md.size();
    c.macTo = c.bytes.size() - tail; c.macFrom = c.macTo - auth.size();
    if (f) c.bytes = maybe_mutate(f, c.bytes);
    return c;
}
Bytes calm(const Bytes& d)
{
    Bytes b = d;
    for (size_t i = 0; i + 2 < b.size(); ++i)
        if (b[i] == 2 && b[i + 1] >= 3 && b[i + 1] <= 8 && i + 2 + b[i + 1] <= b.size())
        {
            size_t n = b[i + 1]; uint64_t v = 0; for (size_t j = 0; j < n; ++j) v = v << 8 | b[i + 2 + j];
            if (v > 20000 && !(b[i + 2] & 0x80)) for (size_t j = 0; j + 1 < n; ++j) b[i + 2 + j] = 0;
        }
    return b;
}
Container gen_any(Src& s, bool cheap, Fault* f)
{
    unsigned w = (unsigned)s.below(cheap ? 16 : 6);
    if (cheap ? w == 0 : w < 2) return gen_key6(s, Key6Opt(), f);
    if (w % 2) return gen_jks(s, JksOpt(), f);
    return gen_p12(s, P12Opt(), f);
}

// ---------------------------------------------------------------- calls
struct Exact { char* p; size_t n; Exact(const Bytes& b) : p((char*)malloc(b.size() ? b.size() : 1)), n(b.size()) { if (n) memcpy(p, b.data(), n); } ~Exact() { free(p); } };
int parse(const Container& c, const Bytes& b, const Bytes& pass, const Bytes& kp, KeyStore** ks)
{
    Exact d(b), p(pass), k(kp);
    switch (c.kind)
    {
        case 0: return KL.parseJKS(d.p, d.n, p.p, p.n, k.p, k.n, ks);
        case 1: return KL.parseKey6(d.p, d.n, p.p, p.n, ks);
        default: return KL.parsePKCS12(d.p, d.n, p.p, p.n, ks);
    }
}
int read_file(const Container& c, FILE* f, const Bytes& pass, const Bytes& kp, KeyStore** ks)
{
    Exact p(pass), k(kp);
    switch (c.kind)
    {
        case 0: return KL.readJKS(f, p.p, p.n, k.p, k.n, ks);
        case 1: return KL.readKey6(f, p.p, p.n, ks);
        default: return KL.readPKCS12(f, p.p, p.n, ks);
    }
}
int read_bio(const Container& c, BIO* b, const Bytes& pass, const Bytes& kp, KeyStore** ks)
{
    Exact p(pass), k(kp);
    switch (c.kind)
    {
        case 0: return KL.readJKS_bio(b, p.p, p.n, k.p, k.n, ks);
        case 1: return KL.readKey6_bio(b, p.p, p.n, ks);
        default: return KL.readPKCS12_bio(b, p.p, p.n, ks);
    }
}
void same_key(const EVP_PKEY* cp, const Key& k, const char* where)
{
    REQUIRE(cp, "%s: no key", where);
    EVP_PKEY* p = (EVP_PKEY*)cp;
    if (k.k)
    {
        int nid = k.k->le ? NID_dstu4145le : NID_dstu4145be;
        REQUIRE(EVP_PKEY_get_id(p) == nid || EVP_PKEY_get_base_id(p) == nid, "%s: the key has another type", where);
        bool ok; Bytes got = dk::out_pkcs8(p, &ok);
        REQUIRE(ok, "%s: the key cannot be written out", where);
        Bytes want = dk::pkcs8(*k.k);
        REQUIRE(got == want, "%s: another private key: got %s, expected %s", where, hex(got, 200).c_str(), hex(want, 200).c_str());
        got = dk::out_spki(p, &ok);
        REQUIRE(ok && got == dk::spki(*k.k), "%s: the public key does not belong to the private key", where);
        checked(2);
        return;
    }
    const uint8_t* q = k.other.data();
    P8 p8(d2i_PKCS8_PRIV_KEY_INFO(nullptr, &q, (long)k.other.size()));
    PKey want(p8 ? EVP_PKCS82PKEY(p8) : nullptr);
    if (!want) throw Discard();
    REQUIRE(EVP_PKEY_eq(want, p) == 1, "%s: another key of a standard algorithm", where);
    auto raw = [&](EVP_PKEY* z) { Bytes o; uint8_t* t = nullptr; P8 y(EVP_PKEY2PKCS8(z)); int n = y ? i2d_PKCS8_PRIV_KEY_INFO(y, &t) : 0; if (n > 0) o.assign(t, t + n); OPENSSL_free(t); return o; };
    REQUIRE(raw(p) == raw(want), "%s: another secret of a standard algorithm", where);
    checked(2);
}
void same_cert(const X509* x, const Bytes& d, const char* where)
{
    REQUIRE(x, "%s: no certificate", where);
    uint8_t* t = nullptr; int n = i2d_X509((X509*)x, &t); Bytes o; if (n > 0) o.assign(t, t + n); OPENSSL_free(t);
    REQUIRE(o == d, "%s: another certificate", where);
    checked();
}
void same_store(KeyStore* ks, const Expect& e, const char* where)
{
    REQUIRE(ks, "%s: success without a store", where);
    size_t nk = KL.KeyStoreKeyNum(ks), nc = KL.KeyStoreCertNum(ks);
    REQUIRE(nk == e.keys.size(), "%s: %zu keys, expected %zu", where, nk, e.keys.size());
    REQUIRE(nc == e.certs.size(), "%s: %zu certificates, expected %zu", where, nc, e.certs.size());
    char b[100];
    for (size_t i = 0; i < nk; ++i) { snprintf(b, sizeof b, "%s, key %zu", where, i); same_key(KL.KeyStoreGetKey(ks, i), e.keys[i], b); }
    for (size_t i = 0; i < nc; ++i) { snprintf(b, sizeof b, "%s, certificate %zu", where, i); same_cert(KL.KeyStoreGetCert(ks, i), e.certs[i], b); }
}
std::string image(KeyStore* ks)
{
    std::string r = "keys";
    size_t nk = KL.KeyStoreKeyNum(ks), nc = KL.KeyStoreCertNum(ks);
    for (size_t i = 0; i < nk; ++i)
    {
        EVP_PKEY* p = (EVP_PKEY*)KL.KeyStoreGetKey(ks, i);
        REQUIRE(p, "entry %zu below the count of %zu keys is empty", i, nk);
        Bio b(BIO_new(BIO_s_mem()));
        EVP_PKEY_print_private(b, p, 0, nullptr);
        char* t; long n = BIO_get_mem_data(b, &t); r += " [" + std::to_string(EVP_PKEY_get_id(p)) + " " + std::string(t, t + n);
        bool ok; Bytes q = dk::out_pkcs8(p, &ok); r += ok ? hex(q, q.size()) : "-";
        q = dk::out_spki(p, &ok); r += " "; r += ok ? hex(q, q.size()) : "-"; r += "]";
        ERR_clear_error();
    }
    r += " certs";
    for (size_t i = 0; i < nc; ++i)
    {
        X509* x = (X509*)KL.KeyStoreGetCert(ks, i);
        REQUIRE(x, "entry %zu below the count of %zu certificates is empty", i, nc);
        uint8_t* t = nullptr; int n = i2d_X509(x, &t); r += " [" + (n > 0 ? hex(t, n, n) : std::string("-")) + "]"; OPENSSL_free(t);
    }
    return r;
}
}
