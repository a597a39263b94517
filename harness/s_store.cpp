// Container readers: P14-P20
#include "cont.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <signal.h>
#include <thread>
using namespace ct;

static KeyStore* const NOTHING = nullptr;
// after a failure the caller's pointer is not one to released memory: it is what it was, or NULL
static void require_failed(int r, KeyStore* ks, KeyStore* before, const char* what)
{
    REQUIRE(r == 0, "%s: accepted (%d)", what, r);
    REQUIRE(ks == before || ks == nullptr, "%s: the failed call left a store pointer behind", what);
    ERR_clear_error();
    checked();
}
static void require_opens(const Container& c, const char* what)
{
    Store st;
    int r = parse(c, &st.p);
    if (r != 1) { st.p = nullptr; FAIL("%s: a well-formed container with the right password is refused (%d) %s", what, r, err_text().c_str()); }
    same_store(st.p, c.want, what);
}

// ------------------------------------------------------------------ P14
SCENARIO("P14", jks_contents, 3500, 160000, FUZZABLE, "at least one entry")
{
    Container c = gen_jks(s, JksOpt{5, 900, true});
    note("%s pass=%s key pass=%s", c.desc.c_str(), hex(c.pass, 20).c_str(), hex(c.keypass, 20).c_str());
    require_opens(c, "jks");
    if (!c.want.keys.empty() || !c.want.certs.empty()) nontrivial();
    char l[40]; snprintf(l, sizeof l, "keys %zu", std::min<size_t>(c.want.keys.size(), 6)); label(l);
}

// a store that holds what the reader does not understand is refused as a whole, although its digest is right
SCENARIO("P14", jks_not_understood, 1500, 60000, FUZZABLE, "every case")
{
    static const char* const what[] = {"", "another file type", "another version", "an entry of unknown kind", "a key protected in another way", "a protected value that is no key", "a value that is no certificate", "more entries announced than present", "fewer entries announced than present"};
    int odd = 1 + (int)s.below(8);
    Container c = gen_jks(s, JksOpt{3, 200, true, odd});
    note("%s, %s", c.desc.c_str(), what[odd]);
    nontrivial(); label(what[odd]);
    KeyStore* before = s.flip() ? nullptr : (KeyStore*)&c; KeyStore* ks = before;
    int r = parse(c, &ks);
    if (r == 1 && ks) KL.KeyStoreFree(ks);
    require_failed(r, r == 1 ? nullptr : ks, before, what[odd]);
}

// sizes and numbers far above the usual ones: no limit of the formats lies anywhere near
static MakeBig large(Src& s, size_t manyMax)
{
    static const size_t bytes[] = {3000, 20000, 70000, 140000, 400000};
    // a password goes into every 20 bytes of a protected key: long passwords with short keys
    if (s.below(4) == 0) { size_t pw = s.flip() ? 1000 : 40000; return MakeBig(3000, 0, pw); }
    return MakeBig(bytes[s.below(5)], s.below(3) ? 0 : 2 + s.below(manyMax), s.flip() ? 300 : 0);
}
SCENARIO_OPT("P14", jks_large, 160, 1500, 0, "a store of more than 64 KiB or with more than 16 entries")
{
    auto big = large(s, 300);
    Container c = gen_jks(s, JksOpt{4, 900, true});
    note("%zu bytes, %zu keys, %zu certificates, passwords %zu and %zu bytes: %s", c.bytes.size(), c.want.keys.size(), c.want.certs.size(), c.pass.size(), c.keypass.size(), c.desc.substr(0, 60).c_str());
    require_opens(c, "large jks");
    if (c.bytes.size() > 65536 || c.want.keys.size() + c.want.certs.size() > 16) nontrivial();
    label(c.bytes.size() > 262144 ? "over 256 KiB" : c.bytes.size() > 65536 ? "over 64 KiB" : "smaller");
    if (c.want.keys.size() + c.want.certs.size() > 64) label("over 64 entries");
}

// ------------------------------------------------------------------ P15
static void tamper(Src& s, const Container& c, int rounds)
{
    for (int round = 0; round < rounds; ++round)
    {
        Container t = c; char w[160];
        KeyStore* before = s.flip() ? nullptr : (KeyStore*)&t; KeyStore* ks = before;
        size_t n = t.bytes.size();
        switch (s.below(10))
        {
            case 0: case 1: case 2: // one bit anywhere, the digest included
            {
                size_t at = s.below(n); uint8_t v = uint8_t(1 << s.below(8)); t.bytes[at] ^= v;
                snprintf(w, sizeof w, "byte %zu of %zu changed by %02x", at, n, v); label("bit"); break;
            }
            case 3: { size_t at = s.below(std::min<size_t>(n, 60)); uint8_t v = uint8_t(1 + s.below(255)); t.bytes[at] ^= v; snprintf(w, sizeof w, "byte %zu of %zu changed by %02x", at, n, v); label("front"); break; }
            case 4: { size_t at = n - 1 - s.below(std::min<size_t>(n, 40)); uint8_t v = uint8_t(1 + s.below(255)); t.bytes[at] ^= v; snprintf(w, sizeof w, "byte %zu of %zu changed by %02x", at, n, v); label("tail"); break; }
            case 5: // several bytes, equal sums
            {
                size_t a = s.below(n), b = s.below(n);
                if (t.bytes[a] == t.bytes[b]) { t.bytes[a] ^= 1; }
                else std::swap(t.bytes[a], t.bytes[b]);
                snprintf(w, sizeof w, "bytes %zu and %zu exchanged", a, b); label("exchange"); break;
            }
            case 6: { size_t k = s.flip() ? n - 1 - s.below(std::min<size_t>(n - 1, 25)) : s.below(n); t.bytes.resize(k); snprintf(w, sizeof w, "cut to %zu of %zu", k, n); label("cut"); break; }
            case 7: { Password q = other_password(s, c.jstore); t.pass = q.utf8; snprintf(w, sizeof w, "wrong store password %s for %s", hex(q.utf8, 24).c_str(), hex(c.pass, 24).c_str()); label("store password"); break; }
            case 8:
            {
                if (c.want.keys.empty()) continue;
                Password q = other_password(s, c.jkey); t.keypass = q.utf8; snprintf(w, sizeof w, "wrong key password %s for %s", hex(q.utf8, 24).c_str(), hex(c.keypass, 24).c_str()); label("key password"); break;
            }
            default: // bytes removed or inserted
            {
                size_t at = s.below(n - 20); 
                if (s.flip()) t.bytes.erase(t.bytes.begin() + at); else t.bytes.insert(t.bytes.begin() + at, s.byte());
                snprintf(w, sizeof w, "a byte inserted or removed at %zu of %zu", at, n); label("shift");
                if (t.bytes == c.bytes) continue;
                break;
            }
        }
        int r = parse(t, &ks);
        if (r == 1 && ks) { KL.KeyStoreFree(ks); }
        require_failed(r, r == 1 ? nullptr : ks, before, w);
    }
    // the untouched one still opens
    require_opens(c, "jks");
}
SCENARIO("P15", jks_tampered, 3000, 140000, FUZZABLE, "every case changes bytes, length or passwords of a store with entries")
{
    Container c = gen_jks(s, JksOpt{3, 300, true});
    if (c.want.keys.empty() && c.want.certs.empty() && s.below(4)) throw Discard();
    note("%s", c.desc.c_str());
    nontrivial();
    tamper(s, c, 6);
}
SCENARIO_OPT("P15", jks_large_tampered, 150, 1500, 0, "a store of more than 64 KiB or with more than 16 entries")
{
    auto big = large(s, 100);
    Container c = gen_jks(s, JksOpt{3, 300, true});
    if (c.want.keys.empty() && c.want.certs.empty()) throw Discard();
    note("%zu bytes, %zu keys, %zu certificates", c.bytes.size(), c.want.keys.size(), c.want.certs.size());
    if (c.bytes.size() > 65536 || c.want.keys.size() + c.want.certs.size() > 16) nontrivial();
    tamper(s, c, 4);
}

// ------------------------------------------------------------------ P16
SCENARIO("P16", key6_contents, 400, 20000, 0, "a second key, a split payload or an unusual password")
{
    Container c = gen_key6(s, Key6Opt{0, true});
    note("%s", c.desc.c_str());
    require_opens(c, "key-6");
    nontrivial();
    label(c.want.keys.size() == 2 ? "two keys" : "one key");
}
SCENARIO_OPT("P16", key6_large, 120, 2000, 0, "a container of more than 4 KiB or a password of more than 100 bytes")
{
    auto big = large(s, 1);
    Container c = gen_key6(s, Key6Opt{0, s.below(4) == 0});
    note("%zu bytes, password %zu bytes: %s", c.bytes.size(), c.pass.size(), c.desc.substr(0, 60).c_str());
    require_opens(c, "large key-6");
    if (c.bytes.size() > 4096 || c.pass.size() > 100) nontrivial();
    if (c.bytes.size() > 65536) label("over 64 KiB");
    if (c.pass.size() > 255) label("password over 255 bytes");
}
SCENARIO("P16", key6_refused, 260, 20000, 0, "every case")
{
    static const int kinds[] = {0, 1, 1, 2, 3, 4};
    int kind = kinds[s.below(6)];
    Container c = gen_key6(s, Key6Opt{kind, true});
    note("%s kind=%d", c.desc.c_str(), kind);
    nontrivial();
    if (kind == 0)
    {
        Bytes q = c.pass;
        switch (s.below(4)) { case 0: q.push_back(s.byte()); break; case 1: if (!q.empty()) q.pop_back(); else q.push_back('a'); break; case 2: if (!q.empty()) q[s.below(q.size())] ^= uint8_t(1 << s.below(8)); else q.push_back(0); break; default: q.push_back(0); }
        KeyStore* ks = nullptr;
        int r = parse(c, c.bytes, q, Bytes(), &ks);
        if (r == 1 && ks) KL.KeyStoreFree(ks);
        require_failed(r, r == 1 ? nullptr : ks, nullptr, "key-6 with another password");
        label("password");
        return;
    }
    // whatever happens depends on the arguments alone, not on what the heap held before
    std::string img[2]; int res[2];
    for (int i = 0; i < 2; ++i)
    {
        g_fill = i ? 0x00 : 0xA5;
        KeyStore* ks = nullptr;
        res[i] = parse(c, &ks);
        if (res[i] == 1) { Store st; st.p = ks; img[i] = image(ks); }
        else { REQUIRE(ks == nullptr, "key-6 kind %d: the failed call left a store pointer behind", kind); img[i] = "failure"; }
    }
    REQUIRE(res[0] == res[1] && img[0] == img[1], "key-6 kind %d: the outcome depends on uninitialised memory", kind);
    if (!c.readable) REQUIRE(res[0] == 0, "key-6 kind %d: %s accepted", kind, kind == 1 ? "a payload that ends before the key does" : kind == 2 ? "a payload that is not a key" : "another container type");
    ERR_clear_error();
    checked(2);
    static const char* lb[] = {"", "cut", "not a key", "other type", "odd tail"}; label(lb[kind]);
}

// ------------------------------------------------------------------ P17
SCENARIO("P17", p12_contents, 5000, 200000, FUZZABLE, "more than one bag, an encrypted part or a nested one")
{
    Container c = gen_p12(s);
    note("%s pass=%s", c.desc.c_str(), hex(c.pass, 20).c_str());
    require_opens(c, "pkcs12");
    if (c.want.keys.size() + c.want.certs.size() > 1 || c.desc.find("enc") != std::string::npos || c.desc.find("(") != std::string::npos) nontrivial();
    if (c.desc.find("(") != std::string::npos) label("nested");
    if (c.desc.find("|enc|") != std::string::npos) label("encrypted safe");
    if (c.desc.find("dstu") != std::string::npos) label("dstu");
}
SCENARIO_OPT("P17", p12_large, 400, 6000, 0, "a container of more than 64 KiB or with more than 16 keys and certificates")
{
    auto big = large(s, 60);
    Container c = gen_p12(s);
    note("%zu bytes, %zu keys, %zu certificates, password %zu bytes: %s", c.bytes.size(), c.want.keys.size(), c.want.certs.size(), c.pass.size(), c.desc.substr(0, 60).c_str());
    require_opens(c, "large pkcs12");
    if (c.bytes.size() > 65536 || c.want.keys.size() + c.want.certs.size() > 16) nontrivial();
    label(c.bytes.size() > 262144 ? "over 256 KiB" : c.bytes.size() > 65536 ? "over 64 KiB" : "smaller");
    if (c.want.keys.size() + c.want.certs.size() > 64) label("over 64 entries");
}
SCENARIO("P17", p12_refused, 5000, 160000, FUZZABLE, "every case")
{
    bool bad = s.below(3) == 0;
    Container c = gen_p12(s, P12Opt{bad ? 1 : 0, 300});
    note("%s pass=%s", c.desc.c_str(), hex(c.pass, 20).c_str());
    nontrivial();
    KeyStore* before = s.flip() ? nullptr : (KeyStore*)&c; KeyStore* ks = before;
    if (bad)
    {
        int r = parse(c, &ks);
        if (r == 1 && ks) KL.KeyStoreFree(ks);
        require_failed(r, r == 1 ? nullptr : ks, before, "pkcs12 with a bag that cannot be read"); label("bad bag");
        return;
    }
    for (int round = 0; round < 4; ++round)
    {
        Container t = c; ks = before; char w[160];
        unsigned how = (unsigned)s.below(5);
        if (how == 4)
        {
            // the MAC itself: absent, or its value, salt or digest another one
            std::vector<der::Node> whole, top, md, di; REQUIRE(der::children(c.bytes, &whole) && whole.size() == 1, "the model's container");
            REQUIRE(der::children(whole[0].val, &top) && top.size() == 3 && der::children(top[2].val, &md) && md.size() >= 2 && der::children(md[0].val, &di) && di.size() == 2, "the model's container");
            auto enc = [](const der::Node& n) { return der::tlv(n.tag, n.val); };
            auto with = [&](const Bytes& alg, const Bytes& val, const Bytes& salt) { return der::seq({enc(top[0]), enc(top[1]), der::seq({der::seq({alg, der::oct(val)}), der::oct(salt), md.size() > 2 ? enc(md[2]) : Bytes()})}); };
            Bytes val = di[1].val, salt = md[1].val; const char* what;
            switch (s.below(5))
            {
                case 0: t.bytes = der::seq({enc(top[0]), enc(top[1])}); if (s.flip()) { Password q = other_password(s, c.jstore); t.pass = q.utf8; } what = "without a MAC"; break;
                case 1: val[s.below(val.size())] ^= uint8_t(1 << s.below(8)); t.bytes = with(enc(di[0]), val, salt); what = "with a changed MAC"; break;
                case 2: val.resize(s.below(val.size())); t.bytes = with(enc(di[0]), val, salt); what = "with a cut MAC"; break;
                case 3: salt[s.below(salt.size())] ^= uint8_t(1 << s.below(8)); t.bytes = with(enc(di[0]), val, salt); what = "with a changed salt"; break;
                default: t.bytes = with(der::seq({der::oid("1.2.3.77"), der::null()}), val, salt); what = "with a MAC of an unknown kind";
            }
            snprintf(w, sizeof w, "pkcs12 %s", what); label(what);
        }
        else if (how == 0 || how == 1)
        {
            Password q = other_password(s, c.jstore); t.pass = q.utf8;
            snprintf(w, sizeof w, "pkcs12 with a wrong password %s for %s", hex(q.utf8, 24).c_str(), hex(c.pass, 24).c_str()); label("password");
        }
        else
        {
            size_t at = s.range(c.macFrom, c.macTo - 1); uint8_t v = s.flip() ? uint8_t(1 << s.below(8)) : uint8_t(1 + s.below(255)); t.bytes[at] ^= v;
            snprintf(w, sizeof w, "pkcs12, protected byte %zu changed by %02x", at, v); label("changed");
        }
        int r = parse(t, &ks);
        if (r == 1 && ks) KL.KeyStoreFree(ks);
        require_failed(r, r == 1 ? nullptr : ks, before, w);
    }
}

// ------------------------------------------------------------------ P18
static void survive(const Container& c, const Bytes& b, const Bytes& pass, const Bytes& kp)
{
    KeyStore* before = nullptr; KeyStore* ks = before;
    int r = parse(c, b, pass, kp, &ks);
    if (r == 0) { REQUIRE(ks == nullptr, "a failed read left a store pointer behind"); label(c.kind == 0 ? "jks refused" : c.kind == 1 ? "key6 refused" : "p12 refused"); }
    else
    {
        REQUIRE(r == 1, "a reader returned %d", r);
        REQUIRE(ks, "success without a store");
        Store st; st.p = ks;
        std::string a = image(ks), d = image(ks);
        REQUIRE(a == d, "the store changes between two looks");
        REQUIRE(!KL.KeyStoreGetKey(ks, KL.KeyStoreKeyNum(ks)) && !KL.KeyStoreGetCert(ks, KL.KeyStoreCertNum(ks)), "an entry beyond the count");
        label(c.kind == 0 ? "jks read" : c.kind == 1 ? "key6 read" : "p12 read");
    }
    ERR_clear_error();
    checked();
}
SCENARIO("P18", damaged_inside, 6000, 400000, FUZZABLE, "a damage was made inside (checksums recomputed)")
{
    Fault f; f.s = &s; static const unsigned rates[] = {4, 12, 30}; f.rate = rates[s.below(3)];
    Container c = gen_any(s, true, &f);
    note("%s damage: %s", c.desc.c_str(), f.how.c_str());
    if (!f.how.empty()) nontrivial();
    survive(c, c.bytes, c.pass, c.keypass);
}
SCENARIO("P18", damaged_large, 400, 20000, 0, "a damage was made inside (checksums recomputed)")
{
    Fault f; f.s = &s; f.rate = s.flip() ? 4 : 20;
    static const size_t bytes[] = {3000, 20000, 70000, 140000};
    MakeBig big(bytes[s.below(4)], s.below(3) ? 0 : 2 + s.below(60), s.below(4) ? 0 : 2000);
    if (g_big.pw) g_big.bytes = 2000;
    Container c = gen_any(s, true, &f);
    note("%zu bytes, damage: %s", c.bytes.size(), f.how.substr(0, 100).c_str());
    if (!f.how.empty()) nontrivial();
    if (c.bytes.size() > 65536) label("over 64 KiB");
    survive(c, c.bytes, c.pass, c.keypass);
}
// the second key of an entry: any curve description and any secret
SCENARIO("P18", odd_second_key, 8000, 300000, FUZZABLE, "every case")
{
    const dk::Curve& c2 = dk::gen_curve(s, 1);
    dk::RefKey k2; k2.c = &c2; k2.le = true; dk::set_secret(k2, dk::gen_secret(s, c2));
    Bytes spec = dk::curve_spec(c2, false), how; std::string h;
    std::vector<mut::T> t; mut::parse(spec, &t);
    auto num = [&]() -> Bytes { switch (s.below(4)) { case 0: return mut::odd_int(s); case 1: return s.raw(1 + s.below(3)); case 2: return Bytes{uint8_t(0xff - s.below(4))}; default: { uint64_t v = s.below(700); return Bytes{uint8_t(v >> 8), uint8_t(v)}; } } };
    int n = (int)s.below(3);
    for (int i = 0; i < n; ++i)
    {
        auto& f = t[0].kids[0].kids; // m, polynomial
        switch (s.below(8))
        {
            case 0: f[0].val = num(); h += "m "; break;
            case 1: if (!f[1].cons || f[1].kids.empty()) f[1].val = num(); else f[1].kids[s.below(f[1].kids.size())].val = num(); h += "exponent "; break;
            case 2: t[0].kids[1].val = num(); h += "a "; break;
            case 3: t[0].kids[2].val = s.blob(s.len(100)); h += "b "; break;
            case 4: t[0].kids[3].val = s.flip() ? num() : s.blob(1 + s.len(90)); h += "n "; break;
            case 5: t[0].kids[4].val = s.blob(s.len(100)); h += "point "; break;
            case 6: if (f[1].cons && f[1].kids.size() == 3) std::swap(f[1].kids[0], f[1].kids[2]); else f[1].val = num(); h += "order "; break;
            default: { std::string g; mut::one(s, t, &g); h += g; if (t.empty() || !t[0].cons || t[0].kids.size() < 5 || !t[0].kids[0].cons || t[0].kids[0].kids.size() < 2) i = n; }
        }
    }
    Bytes cv = der::seq({mut::encode(t), der::oct(s.raw(s.below(3))), der::oct(s.raw(s.below(3)))});
    Bytes kv = key_attr_value(k2, s);
    if (s.chance(60)) { kv = s.flip() ? der::oct(s.blob(s.len(200))) : der::bits(s.blob(s.len(200)), uint8_t(s.below(8))); h += "secret "; }
    if (s.chance(20)) { kv = Bytes(); h += "no secret "; }
    if (s.chance(20)) { cv = Bytes(); h += "no curve "; }
    if (s.chance(20)) std::swap(kv, cv);
    dk::RefKey k1; k1.c = &dk::gen_curve(s, 2); k1.le = s.flip(); dk::set_secret(k1, dk::gen_secret(s, *k1.c));
    Bytes at = attr("1.3.6.1.4.1.19398.1.1.2.2", cv), at2 = attr("1.3.6.1.4.1.19398.1.1.2.3", kv); at.insert(at.end(), at2.begin(), at2.end());
    Bytes p8 = dk::pkcs8(k1, false, at);
    Container c = jks_of({p8}, s);
    nontrivial(); note("%s second: %s", c2.name.c_str(), h.c_str());
    survive(c, c.bytes, c.pass, c.keypass);
}
SCENARIO("P18", damaged_outside, 6000, 300000, FUZZABLE, "every case")
{
    Container c = gen_any(s, true);
    Bytes b = c.bytes; std::string how;
    switch (s.below(6))
    {
        case 0: case 1: b = calm(mut::der_mutate(s, b, &how)); break;
        case 2: b.resize(s.below(b.size() + 1)); how = "cut"; break;
        case 3: { size_t k = 1 + s.below(4); for (size_t i = 0; i < k; ++i) b[s.below(std::min<size_t>(b.size(), 80))] = s.byte(); how = "front"; b = calm(b); break; }
        case 4: { size_t at = s.below(b.size()); static const uint8_t v[] = {0xff, 0x7f, 0x80, 0}; for (size_t i = at; i < at + 4 && i < b.size(); ++i) b[i] = v[s.below(4)]; how = "run"; b = calm(b); break; }
        default: { Bytes x = s.blob(s.len(40)); size_t at = s.below(b.size() + 1); b.insert(b.begin() + at, x.begin(), x.end()); how = "insert"; b = calm(b); }
    }
    Bytes pass = c.pass, kp = c.keypass;
    if (s.chance(30)) pass = s.blob(s.len(50));
    if (s.chance(30)) kp = s.blob(s.len(50));
    if (s.chance(30)) c.kind = s.flip() ? 0 : 2; // given to another reader
    nontrivial(); note("%s damage: %s, kind %d", c.desc.c_str(), how.c_str(), c.kind);
    survive(c, b, pass, kp);
}
SCENARIO("P18", arbitrary_bytes, 60000, 2000000, FUZZABLE, "the bytes are not empty")
{
    Container c; c.kind = s.chance(4) ? 1 : s.flip() ? 0 : 2;
    Bytes b;
    size_t n = s.len(300);
    switch (s.below(5))
    {
        case 0: b = s.blob(n); break;
        case 1: b = s.raw(std::min<size_t>(n, 120)); break;
        case 2: case 3: // a key store header and then anything
            b = unhex(s.flip() ? "feedfeed00000002" : "cececece00000002");
            { Bytes t; if (s.flip()) { t = Bytes{0, 0, 0, uint8_t(s.below(4))}; } else t = s.raw(s.below(5)); b.insert(b.end(), t.begin(), t.end()); }
            { Bytes t; for (size_t i = 0; i < n && i < 80; ++i) { uint8_t v = s.byte(); t.push_back(v < 140 ? 0 : v < 200 ? v & 3 : v); } b.insert(b.end(), t.begin(), t.end()); }
            c.kind = 0;
            break;
        default: { Bytes t = s.raw(std::min<size_t>(n, 60)); b = der::seqb(t); }
    }
    b = calm(b);
    nontrivial(); note("kind %d: %s", c.kind, hex(b, 60).c_str());
    survive(c, b, s.raw(s.below(12)), s.raw(s.below(12)));
}

// ------------------------------------------------------------------ P19
struct Feed { const Bytes* b; size_t at; std::vector<size_t> cuts; size_t ci; int calls; int end; /* 0 eof, 1 error */ bool destroyed; };
static int feed_read(BIO* x, char* o, int n)
{
    Feed* f = (Feed*)BIO_get_data(x); ++f->calls;
    BIO_clear_retry_flags(x);
    if (f->at >= f->b->size()) return f->end ? -1 : 0;
    size_t k = f->ci < f->cuts.size() ? f->cuts[f->ci++] : f->b->size();
    if (k == 0) k = 1;
    k = std::min({k, (size_t)n, f->b->size() - f->at});
    memcpy(o, f->b->data() + f->at, k); f->at += k;
    return (int)k;
}
static long feed_ctrl(BIO* x, int cmd, long, void*) { Feed* f = (Feed*)BIO_get_data(x); if (cmd == BIO_CTRL_EOF) return f->at >= f->b->size(); if (cmd == BIO_CTRL_FLUSH || cmd == BIO_CTRL_DUP) return 1; return 0; }
static int feed_destroy(BIO* x) { Feed* f = (Feed*)BIO_get_data(x); if (f) f->destroyed = true; return 1; }
static BIO_METHOD* feed_method()
{
    static BIO_METHOD* m = [] { BIO_METHOD* q = BIO_meth_new(BIO_get_new_index() | BIO_TYPE_SOURCE_SINK, "feed"); BIO_meth_set_read(q, feed_read); BIO_meth_set_ctrl(q, feed_ctrl); BIO_meth_set_destroy(q, feed_destroy); return q; }();
    return m;
}
static std::string outcome(int r, KeyStore* ks)
{
    if (r == 0) { REQUIRE(ks == nullptr, "a failed read left a store pointer behind"); return "failure"; }
    REQUIRE(r == 1 && ks, "a reader returned %d", r);
    Store st; st.p = ks;
    return image(ks);
}
static void routes(Src& s, const Container& c, bool small, bool large)
{
    Bytes b = c.bytes;
    std::string how;
    // sizes right at the buffer boundaries: trailing bytes are not part of the container
    if (s.chance(60)) { size_t k = 1024 * (b.size() / 1024 + 1) - b.size(); k += s.below(3); if (k) --k; b.resize(b.size() + k, s.byte()); how = "+tail"; }
    if (s.chance(30)) { b.resize(s.below(b.size() + 1)); how = "+cut"; }
    if (s.chance(20)) { if (!b.empty()) b[s.below(b.size())] ^= 1; how += "+bit"; }
    if (small) b.resize(std::min<size_t>(b.size(), s.below(12)));
    Bytes pass = c.pass, kp = c.keypass;
    if (s.chance(20)) { if (!pass.empty()) pass.pop_back(); how += "+pass"; }
    KeyStore* ks = nullptr; int r = parse(c, b, pass, kp, &ks); std::string base = outcome(r, ks);
    ERR_clear_error();
    note("%s %s, %zu bytes, in memory: %s;", c.desc.c_str(), how.c_str(), b.size(), base.substr(0, 40).c_str());
    int routes = c.kind == 1 ? 2 : 4;
    for (int i = 0; i < routes; ++i)
    {
        std::string got; const char* nm = "";
        ks = nullptr;
        switch (s.below(6))
        {
            case 0: case 1: // a stream that delivers as it likes
            {
                Feed f{&b, 0, {}, 0, 0, s.chance(60) ? 1 : 0, false};
                unsigned mode = (unsigned)s.below(5); size_t left = b.size();
                for (int g = 0; left && g < 3000; ++g)
                {
                    size_t k = mode == 0 ? 1 + s.below(7) : mode == 1 ? 1000 + s.below(50) : mode == 2 ? 1024 : mode == 3 ? 1 + s.below(1500) : left;
                    if (mode == 0 && g > 200) k = left;
                    if (large && g > 400) k = left;
                    k = std::min(k, left); f.cuts.push_back(k); left -= k;
                }
                BIO* x = BIO_new(feed_method()); BIO_set_data(x, &f); BIO_set_init(x, 1);
                r = read_bio(c, x, pass, kp, &ks); 
                bool died = f.destroyed; int calls = f.calls;
                if (!died) BIO_free(x);
                got = outcome(r, ks); nm = "stream";
                REQUIRE(!died, "the reader closed the caller's stream");
                REQUIRE(calls > 0, "the stream was not read");
                if (f.cuts.size() > 1) nontrivial();
                note("stream of %zu pieces end %d", f.cuts.size(), f.end);
                break;
            }
            case 2: // memory BIO
            {
                Bio x(BIO_new_mem_buf(b.data(), (int)b.size())); r = read_bio(c, x, pass, kp, &ks); got = outcome(r, ks); nm = "memory stream";
                REQUIRE(BIO_ctrl_pending(x) == 0 || r == 0, "the stream was left half read after success");
                break;
            }
            case 3: // file at some position
            {
                FILE* f = tmpfile(); if (!f) throw Discard();
                size_t pre = s.flip() ? 0 : s.below(2000); Bytes junk = s.noise(pre);
                if (pre) fwrite(junk.data(), 1, pre, f);
                if (!b.empty()) fwrite(b.data(), 1, b.size(), f);
                fseek(f, (long)pre, SEEK_SET);
                r = read_file(c, f, pass, kp, &ks); got = outcome(r, ks); nm = "file";
                bool alive = fcntl(fileno(f), F_GETFD) != -1 && fseek(f, 0, SEEK_SET) == 0;
                Bytes back(pre + b.size()); size_t n = back.empty() ? 0 : fread(back.data(), 1, back.size(), f);
                REQUIRE(alive && n == back.size(), "the reader closed or changed the caller's file");
                fclose(f);
                if (b.size() > 1024) nontrivial();
                note("file at %zu", pre);
                break;
            }
            case 4: // pipe, with the buffering of the C library on or off
            {
                if (b.size() > 60000)
                {
                    // more than a pipe holds: written while it is read
                    int p[2]; if (pipe(p)) throw Discard();
                    signal(SIGPIPE, SIG_IGN);
                    std::thread w([&] { size_t at = 0; while (at < b.size()) { ssize_t k = write(p[1], b.data() + at, b.size() - at); if (k <= 0) break; at += (size_t)k; } close(p[1]); });
                    FILE* f = fdopen(p[0], "rb"); if (s.flip()) setvbuf(f, nullptr, _IONBF, 0);
                    r = read_file(c, f, pass, kp, &ks);
                    bool open = fcntl(p[0], F_GETFD) != -1;
                    fclose(f); w.join();
                    got = outcome(r, ks); nm = "large pipe";
                    REQUIRE(open, "the reader closed the caller's pipe");
                    nontrivial();
                    break;
                }
                int p[2]; if (pipe(p)) throw Discard();
                ssize_t w = b.empty() ? 0 : write(p[1], b.data(), b.size()); close(p[1]);
                if (w != (ssize_t)b.size()) { close(p[0]); throw Discard(); }
                FILE* f = fdopen(p[0], "rb"); if (s.flip()) setvbuf(f, nullptr, _IONBF, 0);
                r = read_file(c, f, pass, kp, &ks); got = outcome(r, ks); nm = "pipe";
                REQUIRE(fcntl(p[0], F_GETFD) != -1, "the reader closed the caller's pipe");
                fclose(f); if (b.size() > 1024) nontrivial();
                break;
            }
            default: // file BIO
            {
                FILE* f = tmpfile(); if (!f) throw Discard();
                if (!b.empty()) fwrite(b.data(), 1, b.size(), f);
                rewind(f);
                Bio x(BIO_new_fp(f, BIO_CLOSE));
                r = read_bio(c, x, pass, kp, &ks); got = outcome(r, ks); nm = "file stream";
                if (b.size() > 1024) nontrivial();
            }
        }
        ERR_clear_error();
        REQUIRE(got == base, "%s: another outcome than from memory (%zu bytes): %s / %s", nm, b.size(), got.substr(0, 60).c_str(), base.substr(0, 60).c_str());
        label(nm); checked();
    }
    if (b.empty()) REQUIRE(base == "failure", "an empty container was accepted");
    // nothing at all, in two ways
    if (s.chance(60))
    {
        Bytes none; Feed f{&none, 0, {}, 0, 0, s.flip() ? 1 : 0, false};
        BIO* x = BIO_new(feed_method()); BIO_set_data(x, &f); BIO_set_init(x, 1); ks = nullptr;
        r = read_bio(c, x, pass, kp, &ks); bool died = f.destroyed; if (!died) BIO_free(x);
        REQUIRE(!died, "the reader closed the caller's stream");
        require_failed(r, ks, nullptr, "an empty stream"); label("nothing");
    }
}

SCENARIO("P19", reader_routes, 2500, 120000, 0, "the container is longer than one piece of the stream")
{
    Container c;
    bool small = s.chance(40);
    if (s.below(20) == 0) c = gen_key6(s);
    else if (s.flip()) c = gen_jks(s, JksOpt{3, s.flip() ? size_t(600) : 3000, true});
    else c = gen_p12(s, P12Opt{0, s.flip() ? size_t(600) : 3000});
    routes(s, c, small, false);
}
SCENARIO_OPT("P19", large_routes, 100, 1000, 0, "the container is longer than one piece of the stream")
{
    auto big = large(s, 200);
    Container c;
    unsigned k = (unsigned)s.below(10);
    if (k == 0) c = gen_key6(s);
    else if (k < 6) c = gen_jks(s, JksOpt{3, 600, true});
    else c = gen_p12(s);
    label(c.bytes.size() > 1048576 ? "over 1 MiB" : c.bytes.size() > 262144 ? "over 256 KiB" : c.bytes.size() > 65536 ? "over 64 KiB" : "smaller");
    routes(s, c, false, true);
}

// ------------------------------------------------------------------ P20
static void store_history(Src& s)
{
    struct Live { Store st; Container c; };
    struct Held { PKey k; Cert x; int what; Key key; Bytes cert; };
    std::vector<std::unique_ptr<Live>> live; std::vector<std::unique_ptr<Held>> held;
    int64_t base = 0; bool measured = false;
    int steps = 4 + (int)s.below(14);
    int most = 0; bool outlived = false;
    (void)base; (void)measured;
    for (int i = 0; i < steps; ++i)
    {
        unsigned op = (unsigned)s.below(10);
        if (live.empty() || (op < 2 && live.size() < 4))
        {
            std::unique_ptr<Live> l(new Live);
            unsigned w = (unsigned)s.below(24);
            l->c = w == 0 ? gen_key6(s) : w % 2 ? gen_jks(s, JksOpt{3, 100, true}) : gen_p12(s, P12Opt{0, 100});
            int r = parse(l->c, &l->st.p);
            if (r != 1) { l->st.p = nullptr; FAIL("a well-formed container is refused: %s", l->c.desc.c_str()); }
            note("open(%s)", l->c.desc.c_str());
            live.push_back(std::move(l)); most = std::max(most, (int)live.size());
            continue;
        }
        size_t at = s.below(live.size()); Live& l = *live[at];
        size_t nk = l.c.want.keys.size(), nc = l.c.want.certs.size();
        switch (op)
        {
            case 2: note("free"); live.erase(live.begin() + at); if (!held.empty()) outlived = true; break;
            case 3: // positions beyond the end
            {
                static const uint64_t far[] = {0, 1, 2, 7, 0xff, 0x7fffffff, 0xffffffff, 0x100000000ull, 0x7fffffffffffffffull, 0xffffffffffffffffull, 0x2000000000000000ull, 0x1fffffffffffffffull};
                uint64_t q = far[s.below(12)];
                if (q >= nk) REQUIRE(!KL.KeyStoreGetKey(l.st.p, (size_t)q), "a key at position %llu of %zu", (unsigned long long)q, nk);
                if (q >= nc) REQUIRE(!KL.KeyStoreGetCert(l.st.p, (size_t)q), "a certificate at position %llu of %zu", (unsigned long long)q, nc);
                REQUIRE(!KL.KeyStoreGetKey(l.st.p, nk) && !KL.KeyStoreGetCert(l.st.p, nc), "an entry right after the last");
                REQUIRE(!KL.KeyStoreGetKey(l.st.p, nk + 1 + s.below(5)) && !KL.KeyStoreGetCert(l.st.p, nc + 1 + s.below(5)), "an entry after the last");
                checked(4); note("beyond"); break;
            }
            case 4: // keep an entry
            {
                std::unique_ptr<Held> h(new Held);
                if (nk && (s.flip() || !nc)) { size_t j = s.below(nk); EVP_PKEY* p = (EVP_PKEY*)KL.KeyStoreGetKey(l.st.p, j); REQUIRE(p, "no key %zu of %zu", j, nk); EVP_PKEY_up_ref(p); h->k.reset(p); h->what = 0; h->key = l.c.want.keys[j]; }
                else if (nc) { size_t j = s.below(nc); X509* p = (X509*)KL.KeyStoreGetCert(l.st.p, j); REQUIRE(p, "no certificate %zu of %zu", j, nc); X509_up_ref(p); h->x.reset(p); h->what = 1; h->cert = l.c.want.certs[j]; }
                else break;
                held.push_back(std::move(h)); note("keep"); break;
            }
            case 5: if (!held.empty()) { size_t j = s.below(held.size()); Held& h = *held[j]; if (h.what == 0) same_key(h.k, h.key, "a kept key"); else same_cert(h.x, h.cert, "a kept certificate"); if (s.flip()) held.erase(held.begin() + j); note("use kept"); } break;
            case 6: // use a key: sign with it, or look at a certificate
            {
                if (!nk) break;
                size_t j = s.below(nk); EVP_PKEY* p = (EVP_PKEY*)KL.KeyStoreGetKey(l.st.p, j); REQUIRE(p, "no key %zu of %zu", j, nk);
                const Key& k = l.c.want.keys[j];
                if (!k.k || k.k->c->toy) break;
                MdCtx m(EVP_MD_CTX_new()); Bytes sig(EVP_PKEY_get_size(p) + 8); size_t sl = sig.size(); static const uint8_t msg[] = "message";
                REQUIRE(EVP_DigestSignInit(m, nullptr, MD(), nullptr, p) == 1 && EVP_DigestSign(m, sig.data(), &sl, msg, 7) == 1, "a key of the store does not sign: %s", err_text().c_str());
                sig.resize(sl);
                // the table goes to the digest only when set on the context; the hash is over the default one
                Bytes h = ref::hash(k.k->sbox(), msg, 7), h0 = ref::hash(ref::dflt(), msg, 7);
                REQUIRE(sl > 2 && (dk::verify_bytes(*k.k, h, Bytes(sig.begin(), sig.end())) || dk::verify_bytes(*k.k, h0, Bytes(sig.begin(), sig.end()))), "the signature of a key of the store does not verify");
                checked(); note("sign"); break;
            }
            default:
            {
                const EVP_PKEY *a = nullptr, *b = nullptr;
                if (nk) { size_t j = s.below(nk); a = KL.KeyStoreGetKey(l.st.p, j); b = KL.KeyStoreGetKey(l.st.p, j); REQUIRE(a == b && a, "key %zu is not the same at the second access", j); }
                same_store(l.st.p, l.c.want, "an open store"); note("look");
            }
        }
    }
    for (auto& l : live) same_store(l->st.p, l->c.want, "at the end");
    while (!live.empty()) live.erase(live.begin() + s.below(live.size()));
    for (auto& h : held) { if (h->what == 0) same_key(h->k, h->key, "a kept key"); else same_cert(h->x, h->cert, "a kept certificate"); outlived = true; }
    if (most > 1 || outlived) nontrivial();
    if (outlived) label("outlived");
    char l[30]; snprintf(l, sizeof l, "alive %d", most); label(l);
}
SCENARIO("P20", store_histories, 2000, 100000, FUZZABLE, "two or more stores were alive at once or an entry outlived its store")
{
    store_history(s);
}
SCENARIO_OPT("P20", large_store_histories, 30, 500, 0, "two or more stores were alive at once or an entry outlived its store")
{
    MakeBig big(3000, s.flip() ? 24 : 150, 0);
    store_history(s);
}
// freeing releases everything
SCENARIO("P20", store_release, 1200, 60000, 0, "the store has entries")
{
    Container c;
    unsigned w = (unsigned)s.below(24);
    c = w == 0 ? gen_key6(s) : w % 2 ? gen_jks(s, JksOpt{4, 200, true}) : gen_p12(s, P12Opt{0, 200});
    note("%s", c.desc.c_str());
    if (!c.want.keys.empty() || !c.want.certs.empty()) nontrivial();
    int64_t seen[5];
    for (int i = 0; i < 5; ++i)
    {
        KeyStore* ks = nullptr;
        int r = parse(c, &ks);
        REQUIRE(r == 1 && ks, "a well-formed container is refused: %s", err_text().c_str());
        KL.KeyStoreFree(ks); ERR_clear_error();
        seen[i] = live_allocs();
    }
    REQUIRE(!(seen[1] < seen[2] && seen[2] < seen[3] && seen[3] < seen[4]), "opening and freeing a store leaves %lld allocations behind each time", (long long)(seen[4] - seen[3]));
    checked();
}

// the same cases in sequence
SCENARIO_AGAIN("P14", jks_contents, 500, 15000)
SCENARIO_AGAIN("P16", key6_contents, 80, 2000)
SCENARIO_AGAIN("P17", p12_contents, 800, 20000)
SCENARIO_AGAIN("P18", damaged_inside, 1000, 40000)
SCENARIO_AGAIN("P20", store_histories, 300, 8000)
