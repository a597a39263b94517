// P24: the GOST 28147 primitives exported by the library (contexts are opaque memory here).
#include "gen.h"
#include <memory>

namespace
{
struct Api
{
    typedef void C; typedef uint8_t B;
    void (*gostcrypt)(C*, const B*, B*); void (*gostdecrypt)(C*, const B*, B*);
    void (*gost_enc)(C*, const B*, B*, int); void (*gost_dec)(C*, const B*, B*, int);
    void (*gost_enc_cfb)(C*, const B*, const B*, B*, int); void (*gost_dec_cfb)(C*, const B*, const B*, B*, int);
    void (*gost_enc_with_key)(C*, B*, B*, B*);
    void (*gost_key)(C*, const B*); void (*gost_key_nomask)(C*, const B*); void (*magma_key)(C*, const B*);
    void (*gost_get_key)(C*, B*); void (*magma_get_key)(C*, B*);
    void (*gost_init)(C*, const void*); void (*gost_destroy)(C*);
    void (*mac_block)(C*, B*, const B*); void (*get_mac)(B*, int, B*);
    int (*gost_mac)(C*, int, const B*, unsigned, B*); int (*gost_mac_iv)(C*, int, const B*, const B*, unsigned, B*);
    void (*cryptopro_key_meshing)(C*, B*); void (*acpkm_magma_key_meshing)(C*);
    void (*unpack_sbox)(B*, void*); void (*pack_sbox)(void*, B*); void (*dstu_get_sbox)(C*, void*);
    int (*is_default_sbox)(const B*);
    int (*init_gost_hash_ctx)(void*, const void*); void (*done_gost_hash_ctx)(void*); int (*start_hash)(void*); int (*hash_block)(void*, const B*, size_t); int (*finish_hash)(void*, B*);
};
const Api& api()
{
    static Api a; static bool done = false;
    if (!done)
    {
#define S(x) a.x = (decltype(a.x))keylib_sym(#x)
        S(gostcrypt); S(gostdecrypt); S(gost_enc); S(gost_dec); S(gost_enc_cfb); S(gost_dec_cfb); S(gost_enc_with_key); S(gost_key); S(gost_key_nomask); S(magma_key);
        S(gost_get_key); S(magma_get_key); S(gost_init); S(gost_destroy); S(mac_block); S(get_mac); S(gost_mac); S(gost_mac_iv); S(cryptopro_key_meshing); S(acpkm_magma_key_meshing);
        S(unpack_sbox); S(pack_sbox); S(dstu_get_sbox); S(is_default_sbox);
        S(init_gost_hash_ctx); S(done_gost_hash_ctx); S(start_hash); S(hash_block); S(finish_hash);
#undef S
        done = true;
    }
    return a;
}
#define NEED(f) do { if (!api().f) throw Discard(); } while (0)

struct Buf                                    // exact-size copy on the heap
{
    std::unique_ptr<uint8_t[]> p; size_t n;
    explicit Buf(const Bytes& b) : p(new uint8_t[b.size()]), n(b.size()) { if (n) memcpy(p.get(), b.data(), n); }
    explicit Buf(size_t k, uint8_t fill = 0x5a) : p(new uint8_t[k]), n(k) { memset(p.get(), fill, k); }
    operator uint8_t*() { return p.get(); }
    Bytes get() const { return Bytes(p.get(), p.get() + n); }
};
struct Block { Buf b; Block() : b(1024) {} void* v() { return b.p.get(); } };   // an unpacked table

ref::Sbox rows(const char* const r[8])        // r[0]: the lowest nibble
{
    ref::Sbox s;
    for (int i = 0; i < 8; ++i) for (int j = 0; j < 16; ++j) s.k[i][j] = uint8_t(r[i][j] <= '9' ? r[i][j] - '0' : r[i][j] - 'A' + 10);
    return s;
}
const char* const R3411_TEST[8] = { "4A92D80E6B1C7F53", "EB4C6DFA23810759", "581DA342EFC7609B", "7DA1089FE46CB253", "6C715FD84A9E03B2", "4BA0721D36859CFE", "DB413F590AE7682C", "1FD057A4923E6B8C" };
const char* const TC26_Z[8] = { "C462A5B9E8D703F1", "68239A5C1E47BD0F", "B3582FADE174C960", "C821D4F670A53E9B", "7F5A816D093EB42C", "5DF692CAB78143E0", "8E25691CF4B0DA37", "17ED05834FA69CB2" };
const char* const CP_A[8] = { "96328B17A4EFC0D5", "37E98AF0526CB4D1", "E462B3D8CF5A0719", "E7ACD13902B4F856", "B5198DF0E423C7A6", "3ADC120B75948FE6", "1D297A608C45F3BE", "BAF50CE8623917D4" };

struct Ctx
{
    Buf mem; ref::Sbox tab; Bytes packed; uint8_t key[32];
    Ctx() : mem(8192, g_fill) {}
    void* v() { return mem.p.get(); }
    ref::Gost g() const { return ref::Gost(tab, key); }
};
void set_table(Src& s, Ctx& c)
{
    NEED(gost_init); NEED(unpack_sbox);
    int how = (int)s.below(12);
    const void* named = nullptr; const char* const* r = nullptr;
    if (how == 0) { api().gost_init(c.v(), nullptr); c.tab = rows(R3411_TEST); label("table: none given"); return; }
    if (how == 1) { named = keylib_sym("GostR3411_94_TestParamSet"); r = R3411_TEST; }
    if (how == 2) { named = keylib_sym("Gost28147_TC26ParamSetZ"); r = TC26_Z; }
    if (how == 3) { named = keylib_sym("Gost28147_CryptoProParamSetA"); r = CP_A; }
    if (named) { api().gost_init(c.v(), named); c.tab = rows(r); label("table: published"); return; }
    Buf p(gen_table(s)); c.packed = p.get();
    Block b; api().unpack_sbox(p, b.v());
    api().gost_init(c.v(), b.v());
    c.tab = ref::unpack(c.packed.data());
    label("table: generated");
}
Bytes gen_key32(Src& s)
{
    switch (s.below(5)) { case 0: return Bytes(32, 0); case 1: return Bytes(32, 0xff); case 2: { Bytes k(32, 0); k[s.below(32)] = uint8_t(1 << s.below(8)); return k; } default: return s.noise(32); }
}
void set_key(Src& s, Ctx& c)
{
    Bytes k = gen_key32(s); Buf b(k);
    g_rng.reset(s.bits(2));
    switch (s.below(5))
    {
        case 0: NEED(gost_key_nomask); api().gost_key_nomask(c.v(), b); break;
        case 1: NEED(magma_key); { Bytes m = k; for (int i = 0; i < 32; i += 4) std::reverse(m.begin() + i, m.begin() + i + 4); Buf mb(m); api().magma_key(c.v(), mb); label("key: big-endian words"); } break;
        case 2: NEED(gost_key); g_rng.script = s.flip() ? Bytes(32, 0xff) : Bytes(32, 0x80); api().gost_key(c.v(), b); break;
        case 3: NEED(gost_key); g_rng.fail_from = 0; api().gost_key(c.v(), b); g_rng.fail_from = -1; label("key: masks unavailable"); break;
        default: NEED(gost_key); api().gost_key(c.v(), b); break;
    }
    memcpy(c.key, k.data(), 32);
}
void check_key(Ctx& c, const char* when)
{
    NEED(gost_get_key);
    Buf k(32); api().gost_get_key(c.v(), k);
    REQUIRE(!memcmp(k, c.key, 32), "%s: the key reads back as %s, expected %s", when, hex(k.get()).c_str(), hex(c.key, 32).c_str());
    if (api().magma_get_key)
    {
        Buf m(32); api().magma_get_key(c.v(), m); Bytes w(c.key, c.key + 32); for (int i = 0; i < 32; i += 4) std::reverse(w.begin() + i, w.begin() + i + 4);
        REQUIRE(m.get() == w, "%s: the key reads back in big-endian words as %s, expected %s", when, hex(m.get()).c_str(), hex(w).c_str());
    }
    checked();
}
static size_t g_long = 0;                        // blocks a multi-block helper may get at most, when set
std::string op(Src& s, Ctx& c)
{
    auto blocks = [&] { return g_long ? (int)s.below(g_long) : (int)s.below(12); };
    auto data = [&](int n) { return g_long ? s.noise(8 * n) : s.blob(8 * n); };
    auto same = [&](const Bytes& got, const Bytes& want, const char* what) { REQUIRE(got == want, "%s: %s, expected %s (key %s)", what, hex(got, 64).c_str(), hex(want, 64).c_str(), hex(c.key, 32).c_str()); checked(); };
    switch (s.below(13))
    {
        case 0:
        {
            NEED(gostcrypt); NEED(gostdecrypt);
            Bytes in = s.blob(8), w(8); c.g().enc(in.data(), w.data());
            Buf b(in), o(8);
            if (s.flip()) { api().gostcrypt(c.v(), b, o); same(b.get(), in, "the input of a block encryption changes"); }
            else { memcpy(o, b, 8); api().gostcrypt(c.v(), o, o); }
            same(o.get(), w, "block encryption");
            Buf d(8); api().gostdecrypt(c.v(), o, d); same(d.get(), in, "block decryption of an encrypted block");
            return "block";
        }
        case 1:
        {
            NEED(gostdecrypt); NEED(gostcrypt);
            Bytes in = s.blob(8), w(8); c.g().dec(in.data(), w.data());
            Buf b(in), o(8); api().gostdecrypt(c.v(), b, o); same(o.get(), w, "block decryption");
            Buf e(8); api().gostcrypt(c.v(), o, e); same(e.get(), in, "block encryption of a decrypted block");
            return "unblock";
        }
        case 2: { NEED(gost_enc); int n = blocks(); Bytes in = data(n); Buf b(in), o(8 * n); api().gost_enc(c.v(), b, o, n); same(o.get(), ref::ecb_enc(c.tab, c.key, in), "codebook encryption"); return "ecb"; }
        case 3: { NEED(gost_dec); int n = blocks(); Bytes in = data(n); Buf b(in), o(8 * n); api().gost_dec(c.v(), b, o, n); same(o.get(), ref::ecb_dec(c.tab, c.key, in), "codebook decryption"); return "ecb-"; }
        case 4: case 5:
        {
            bool enc = s.flip(); if (enc) NEED(gost_enc_cfb); else NEED(gost_dec_cfb);
            int n = blocks(); Bytes in = data(n), iv = s.blob(8); Buf b(in), o(8 * n), v(iv);
            (enc ? api().gost_enc_cfb : api().gost_dec_cfb)(c.v(), v, b, o, n);
            same(o.get(), ref::cfb(c.tab, c.key, iv.data(), in, enc), enc ? "feedback encryption" : "feedback decryption");
            same(v.get(), iv, "the starting vector given to the feedback helper");
            return "cfb";
        }
        case 6:
        {
            NEED(gost_enc_with_key);
            Bytes k = gen_key32(s), in = s.blob(8), w(8); Buf kb(k), b(in), o(8);
            api().gost_enc_with_key(c.v(), kb, b, o);
            memcpy(c.key, k.data(), 32); c.g().enc(in.data(), w.data());
            same(o.get(), w, "encryption with a given key");
            return "with-key";
        }
        case 7: case 8:
        {
            bool iv = s.flip(); if (iv) NEED(gost_mac_iv); else NEED(gost_mac);
            int bits = (int)s.below(65);
            if (s.flip()) bits = 8 * (int)(1 + s.below(8));
            Bytes d; switch (s.below(4)) { case 0: d = s.blob(8 * s.below(4)); break; case 1: d = s.blob(s.below(10)); break; default: d = s.blob(s.len(120)); }
            if (g_long) d = s.noise(s.below(8 * g_long));
            Bytes v = iv ? s.blob(8) : Bytes(8, 0); Buf db(d), vb(v), o((bits + 7) / 8, 0xff);
            int r = iv ? api().gost_mac_iv(c.v(), bits, vb, db, (unsigned)d.size(), o) : api().gost_mac(c.v(), bits, db, (unsigned)d.size(), o);
            REQUIRE(r == 1, "the MAC reports %d", r);
            Bytes w = ref::mac(c.tab, c.key, v.data(), d, bits);
            REQUIRE(o.get() == w, "MAC of %d bits over %zu bytes: %s, expected %s", bits, d.size(), hex(o.get()).c_str(), hex(w).c_str());
            same(vb.get(), v, "the starting vector of a MAC");
            label(bits % 8 ? "MAC of odd length" : "MAC of whole bytes");
            return "mac";
        }
        case 9:
        {
            NEED(mac_block);
            Bytes st = s.blob(8), b = s.blob(8), w = st; c.g().mac16(w.data(), b.data());
            Buf sb(st), bb(b); api().mac_block(c.v(), sb, bb); same(sb.get(), w, "one MAC step");
            if (api().get_mac)
            {
                int bits = (int)s.below(65); Buf o((bits + 7) / 8, 0xee); api().get_mac(sb, bits, o);
                Bytes t((bits + 7) / 8, 0); for (int i = 0; i < bits; ++i) if (w[i / 8] >> (i % 8) & 1) t[i / 8] |= uint8_t(1 << (i % 8));
                same(o.get(), t, "MAC value taken from a state");
            }
            return "mac-step";
        }
        case 10:
        {
            NEED(cryptopro_key_meshing);
            Bytes iv = s.blob(8); bool with = s.flip(); int times = 1 + (int)s.below(3);
            for (int i = 0; i < times; ++i)
            {
                Buf v(iv);
                api().cryptopro_key_meshing(c.v(), with ? (uint8_t*)v : nullptr);
                ref::cryptopro_mesh(c.tab, c.key, with ? iv.data() : nullptr);
                check_key(c, "after key meshing");
                if (with) same(v.get(), iv, "starting vector after key meshing");
            }
            return "meshing";
        }
        case 11:
        {
            NEED(acpkm_magma_key_meshing);
            api().acpkm_magma_key_meshing(c.v());
            uint8_t nk[32];
            for (int i = 0; i < 4; ++i) { uint8_t d[8], e[8]; for (int j = 0; j < 8; ++j) d[j] = uint8_t(0x80 + 8 * i + 7 - j); c.g().enc(d, e); for (int j = 0; j < 8; ++j) nk[8 * i + j] = e[(j + 4) % 8]; }
            memcpy(c.key, nk, 32);
            check_key(c, "after ACPKM meshing");
            return "acpkm";
        }
        default:
            if (s.flip()) { set_key(s, c); check_key(c, "after setting it"); return "key"; }
            if (s.flip()) { set_table(s, c); return "table"; }
            check_key(c, "later"); return "get-key";
    }
}
}

SCENARIO("P24", gost_primitives, 600000, 4000000, FUZZABLE, "three or more operations on one context")
{
    Ctx c;
    set_table(s, c); set_key(s, c);
    if (s.flip()) check_key(c, "after setting it");
    int n = 1 + (int)s.below(12); std::string t;
    for (int i = 0; i < n; ++i) t += " " + op(s, c);
    check_key(c, "at the end");
    if (!c.packed.empty() && api().dstu_get_sbox && api().pack_sbox)
    {
        Block b; Buf p(64); api().dstu_get_sbox(c.v(), b.v()); api().pack_sbox(b.v(), p);
        REQUIRE(p.get() == ref::pack(c.tab), "the table read back from a context is %s, expected %s", hex(p.get()).c_str(), hex(ref::pack(c.tab)).c_str());
        checked();
    }
    if (api().gost_destroy) api().gost_destroy(c.v());
    if (n >= 3) nontrivial();
    note("ops:%s", t.c_str());
}
SCENARIO_OPT("P24", gost_optimized, 400000, 3000000, 0, "three or more operations on one context")
{
    Ctx c;
    set_table(s, c); set_key(s, c);
    int n = 1 + (int)s.below(12); std::string t;
    for (int i = 0; i < n; ++i) t += " " + op(s, c);
    check_key(c, "at the end");
    if (n >= 3) nontrivial();
    note("ops:%s", t.c_str());
}
// many blocks in one call
SCENARIO_OPT("P24", gost_long, 2500, 60000, 0, "a call for more than 64 KiB")
{
    struct L { L(size_t n) { g_long = n; } ~L() { g_long = 0; } };
    static const size_t top[] = {300, 9000, 20000, 70000};
    Ctx c; set_table(s, c); set_key(s, c); L l(top[s.below(4)]);
    int n = 1 + (int)s.below(3); std::string t; size_t most = 0;
    for (int i = 0; i < n; ++i) { t += " " + op(s, c); most = std::max(most, g_long); }
    check_key(c, "at the end");
    if (most >= 9000) nontrivial();
    note("up to %zu blocks:%s", most, t.c_str());
}
SCENARIO("P24", tables_pack, 30000, 1000000, 0, "a table other than the default one")
{
    NEED(unpack_sbox); NEED(pack_sbox);
    Bytes t = gen_table(s);
    Buf p(t); Block b; api().unpack_sbox(p, b.v());
    REQUIRE(p.get() == t, "unpacking changes the packed table");
    Buf q(64); api().pack_sbox(b.v(), q);
    REQUIRE(q.get() == t, "unpack and pack: %s becomes %s", hex(t).c_str(), hex(q.get()).c_str());
    Block b2; memcpy(b2.v(), b.v(), 128);
    Buf q2(q.get()); Block b3; api().unpack_sbox(q2, b3.v());
    REQUIRE(!memcmp(b3.v(), b2.v(), 128), "pack and unpack changes a table");
    // any rows of nibbles, directly
    Bytes raw = s.noise(128); for (auto& x : raw) x &= 15;
    Block r; memcpy(r.v(), raw.data(), 128); Buf rp(64); api().pack_sbox(r.v(), rp); Block r2; api().unpack_sbox(rp, r2.v());
    REQUIRE(!memcmp(r2.v(), raw.data(), 128), "pack and unpack changes a table");
    if (api().is_default_sbox)
    {
        bool d = !memcmp(t.data(), ref::DEFAULT_PACKED, 64); Buf y(t);
        REQUIRE((api().is_default_sbox(y) != 0) == d, "%s is%s taken for the default table", hex(t).c_str(), d ? " not" : "");
    }
    checked(4);
    if (memcmp(t.data(), ref::DEFAULT_PACKED, 64)) nontrivial();
    note("table %s", hex(t).c_str());
}
// the hash as the container library uses it
SCENARIO("P01", library_hash, 5000, 100000, 0, "a message of more than one block, in more than one piece")
{
    NEED(init_gost_hash_ctx); NEED(start_hash); NEED(hash_block); NEED(finish_hash); NEED(done_gost_hash_ctx); NEED(unpack_sbox);
    Bytes t = gen_table(s); Buf tp(t); Block tb; api().unpack_sbox(tp, tb.v());
    Buf mem(4096, g_fill);
    REQUIRE(api().init_gost_hash_ctx(mem.p.get(), tb.v()), "the hash cannot be initialised");
    int rounds = 1 + (int)s.below(3); size_t longest = 0, pieces = 0;
    for (int i = 0; i < rounds; ++i)
    {
        REQUIRE(api().start_hash(mem.p.get()), "start");
        Bytes d = s.blob(s.len(400)); size_t at = 0;
        std::vector<size_t> cuts = gen_cuts(s, d.size());
        for (size_t n : cuts) { Buf b(Bytes(d.begin() + at, d.begin() + at + n)); REQUIRE(api().hash_block(mem.p.get(), b, n), "update"); at += n; }
        Buf o(32); REQUIRE(api().finish_hash(mem.p.get(), o), "finish");
        Bytes w = ref::hash(ref::unpack(t.data()), d);
        REQUIRE(o.get() == w, "hash number %d of %zu bytes in %zu pieces: %s, expected %s", i, d.size(), cuts.size(), hex(o.get()).c_str(), hex(w).c_str());
        checked(); longest = std::max(longest, d.size()); pieces = std::max(pieces, cuts.size());
    }
    api().done_gost_hash_ctx(mem.p.get());
    if (longest > 32 && pieces > 1) nontrivial();
    note("messages=%d longest=%zu pieces=%zu", rounds, longest, pieces);
}
