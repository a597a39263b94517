#include "ref.h"
#include <map>
#include <mutex>
#include <cstdlib>
namespace ref
{
const uint8_t DEFAULT_PACKED[64] =
{
    0xa9, 0xd6, 0xeb, 0x45, 0xf1, 0x3c, 0x70, 0x82, 0x80, 0xc4, 0x96, 0x7b, 0x23, 0x1f, 0x5e, 0xad,
    0xf6, 0x58, 0xeb, 0xa4, 0xc0, 0x37, 0x29, 0x1d, 0x38, 0xd9, 0x6b, 0xf0, 0x25, 0xca, 0x4e, 0x17,
    0xf8, 0xe9, 0x72, 0x0d, 0xc6, 0x15, 0xb4, 0x3a, 0x28, 0x97, 0x5f, 0x0b, 0xc1, 0xde, 0xa3, 0x64,
    0x38, 0xb5, 0x64, 0xea, 0x2c, 0x17, 0x9f, 0xd0, 0x12, 0x3e, 0x6d, 0xb8, 0xfa, 0xc5, 0x79, 0x04
};
Sbox unpack(const uint8_t* p)
{
    Sbox s;
    for (int row = 0; row < 8; ++row)
        for (int i = 0; i < 16; ++i)
            s.k[row][i] = (i & 1) ? (p[row * 8 + i / 2] & 15) : (p[row * 8 + i / 2] >> 4);
    return s;
}
Bytes pack(const Sbox& s)
{
    Bytes b(64, 0);
    for (int row = 0; row < 8; ++row)
        for (int i = 0; i < 16; ++i)
            b[row * 8 + i / 2] |= (i & 1) ? s.k[row][i] : uint8_t(s.k[row][i] << 4);
    return b;
}
static uint32_t ld(const uint8_t* p) { return p[0] | p[1] << 8 | p[2] << 16 | uint32_t(p[3]) << 24; }
static void st(uint8_t* p, uint32_t v) { p[0] = uint8_t(v); p[1] = uint8_t(v >> 8); p[2] = uint8_t(v >> 16); p[3] = uint8_t(v >> 24); }

Gost::Gost(const Sbox& sb, const uint8_t* key) : s(sb) { for (int i = 0; i < 8; ++i) K[i] = ld(key + 4 * i); }
uint32_t Gost::f(uint32_t x) const
{
    uint32_t r = 0;
    for (int i = 0; i < 8; ++i) r |= uint32_t(s.k[i][(x >> (4 * i)) & 15]) << (4 * i);
    return r << 11 | r >> 21;
}
static inline void rounds(const Gost& g, uint32_t& n1, uint32_t& n2, const int* order, int n)
{
    for (int i = 0; i < n; ++i)
    {
        uint32_t t = n2 ^ g.f(n1 + g.K[order[i]]);
        n2 = n1; n1 = t;
    }
}
static const int ENC[32] = {0,1,2,3,4,5,6,7,0,1,2,3,4,5,6,7,0,1,2,3,4,5,6,7,7,6,5,4,3,2,1,0};
static const int DEC[32] = {0,1,2,3,4,5,6,7,7,6,5,4,3,2,1,0,7,6,5,4,3,2,1,0,7,6,5,4,3,2,1,0};
void Gost::enc(const uint8_t* in, uint8_t* out) const
{
    uint32_t n1 = ld(in), n2 = ld(in + 4);
    rounds(*this, n1, n2, ENC, 32);
    st(out, n2); st(out + 4, n1);      // the last round does not swap
}
void Gost::dec(const uint8_t* in, uint8_t* out) const
{
    uint32_t n1 = ld(in), n2 = ld(in + 4);
    rounds(*this, n1, n2, DEC, 32);
    st(out, n2); st(out + 4, n1);
}
void Gost::mac16(uint8_t* b, const uint8_t* blk) const
{
    uint32_t n1 = ld(b) ^ ld(blk), n2 = ld(b + 4) ^ ld(blk + 4);
    rounds(*this, n1, n2, ENC, 16);
    st(b, n1); st(b + 4, n2);
}
Bytes Cfb::run(const Bytes& in, bool encrypt)
{
    Gost g(s, key);
    Bytes out(in.size());
    for (size_t i = 0; i < in.size(); ++i)
    {
        if (pos == 0) g.enc(iv, gamma);
        out[i] = in[i] ^ gamma[pos];
        iv[pos] = encrypt ? out[i] : in[i];
        pos = (pos + 1) & 7;
    }
    return out;
}
Bytes cfb(const Sbox& s, const uint8_t* key, const uint8_t* iv, const Bytes& in, bool e)
{
    Cfb c; c.s = s; memcpy(c.key, key, 32); memcpy(c.oiv, iv, 8); c.start();
    return c.run(in, e);
}
Bytes ecb_dec(const Sbox& s, const uint8_t* key, const Bytes& in)
{
    Gost g(s, key); Bytes o(in.size() / 8 * 8);
    for (size_t i = 0; i + 8 <= in.size(); i += 8) g.dec(&in[i], &o[i]);
    return o;
}
Bytes ecb_enc(const Sbox& s, const uint8_t* key, const Bytes& in)
{
    Gost g(s, key); Bytes o(in.size() / 8 * 8);
    for (size_t i = 0; i + 8 <= in.size(); i += 8) g.enc(&in[i], &o[i]);
    return o;
}
Bytes mac(const Sbox& s, const uint8_t* key, const uint8_t* iv, const Bytes& data, int nbits)
{
    Gost g(s, key);
    uint8_t b[8]; memcpy(b, iv, 8);
    size_t n = (data.size() + 7) / 8;
    for (size_t i = 0; i < n; ++i)
    {
        uint8_t blk[8] = {0};
        memcpy(blk, &data[8 * i], std::min<size_t>(8, data.size() - 8 * i));
        g.mac16(b, blk);
    }
    if (n == 1) { uint8_t z[8] = {0}; g.mac16(b, z); }  // at least two blocks are processed
    Bytes r((nbits + 7) / 8);
    for (int i = 0; i < nbits; ++i) if (b[i / 8] >> (i % 8) & 1) r[i / 8] |= uint8_t(1 << (i % 8));
    return r;
}
void cryptopro_mesh(const Sbox& s, uint8_t* key, uint8_t* iv)
{
    static const uint8_t C[32] = {
        0x69, 0x00, 0x72, 0x22, 0x64, 0xC9, 0x04, 0x23, 0x8D, 0x3A, 0xDB, 0x96, 0x46, 0xE9, 0x2A, 0xC4,
        0x18, 0xFE, 0xAC, 0x94, 0x00, 0xED, 0x07, 0x12, 0xC0, 0x86, 0xDC, 0xC2, 0xEF, 0x4C, 0xA9, 0x2B };
    Bytes nk = ecb_dec(s, key, Bytes(C, C + 32));
    memcpy(key, nk.data(), 32);
    if (iv) { uint8_t o[8]; Gost(s, key).enc(iv, o); memcpy(iv, o, 8); }
}

// ---- GOST 34.311: 256-bit values as 32 bytes, byte 0 least significant
typedef uint8_t V[32];
static void A(const uint8_t* y, uint8_t* o)  // A(y4|y3|y2|y1) = (y1^y2)|y4|y3|y2
{
    uint8_t t[32];
    memcpy(t, y + 8, 24);
    for (int i = 0; i < 8; ++i) t[24 + i] = y[i] ^ y[8 + i];
    memcpy(o, t, 32);
}
static void P(const uint8_t* y, uint8_t* o)  // phi(i + 1 + 4(k-1)) = 8i + k
{
    for (int i = 0; i < 4; ++i) for (int k = 0; k < 8; ++k) o[i + 4 * k] = y[8 * i + k];
}
static void psi(uint8_t* y, int times)
{
    while (times--)
    {
        uint16_t w = 0;
        for (int i : {0, 1, 2, 3, 12, 15}) w ^= uint16_t(y[2 * i] | y[2 * i + 1] << 8);
        memmove(y, y + 2, 30);
        y[30] = uint8_t(w); y[31] = uint8_t(w >> 8);
    }
}
static void step(const Sbox& s, uint8_t* H, const uint8_t* M)
{
    // C3 = 1^8 0^8 1^16 0^24 1^16 0^8 (0^8 1^8)^2 1^8 0^8 (0^8 1^8)^4 (1^8 0^8)^4, most significant first
    static const uint8_t C3[32] = {
        0x00,0xff,0x00,0xff,0x00,0xff,0x00,0xff, 0xff,0x00,0xff,0x00,0xff,0x00,0xff,0x00,
        0x00,0xff,0xff,0x00,0xff,0x00,0x00,0xff, 0xff,0x00,0x00,0x00,0xff,0xff,0x00,0xff };
    V U, W, T, K, S;
    memcpy(U, H, 32); memcpy(T, M, 32);
    for (int i = 0; i < 4; ++i)
    {
        if (i > 0)
        {
            A(U, U);
            if (i == 2) for (int j = 0; j < 32; ++j) U[j] ^= C3[j];
            A(T, T); A(T, T);
        }
        for (int j = 0; j < 32; ++j) W[j] = U[j] ^ T[j];
        P(W, K);
        Gost(s, K).enc(H + 8 * i, S + 8 * i);
    }
    psi(S, 12);
    for (int j = 0; j < 32; ++j) S[j] ^= M[j];
    psi(S, 1);
    for (int j = 0; j < 32; ++j) S[j] ^= H[j];
    psi(S, 61);
    memcpy(H, S, 32);
}
static void add(uint8_t* a, const uint8_t* b)
{
    unsigned c = 0;
    for (int i = 0; i < 32; ++i) { c += a[i] + b[i]; a[i] = uint8_t(c); c >>= 8; }
}
void hinit(HashState& h, const Sbox& s) { h.s = s; memset(h.H, 0, 32); memset(h.S, 0, 32); h.blocks = 0; h.rest.clear(); }
void hupdate(HashState& h, const uint8_t* p, size_t n)
{
    while (n)
    {
        if (h.rest.empty() && n >= 32)
        {
            step(h.s, h.H, p); add(h.S, p); ++h.blocks; p += 32; n -= 32;
            continue;
        }
        size_t k = std::min<size_t>(n, 32 - h.rest.size());
        h.rest.insert(h.rest.end(), p, p + k); p += k; n -= k;
        if (h.rest.size() == 32) { step(h.s, h.H, h.rest.data()); add(h.S, h.rest.data()); ++h.blocks; h.rest.clear(); }
    }
}
Bytes hfinal(const HashState& h)
{
    V H, S; memcpy(H, h.H, 32); memcpy(S, h.S, 32);
    uint64_t bits = (h.blocks * 32 + h.rest.size()) * 8;
    if (!h.rest.empty() || bits == 0)
    {
        V m = {0}; memcpy(m, h.rest.data(), h.rest.size());
        step(h.s, H, m); add(S, m);
    }
    V L = {0};
    for (int i = 0; i < 8; ++i) L[i] = uint8_t(bits >> (8 * i));
    step(h.s, H, L); step(h.s, H, S);
    return Bytes(H, H + 32);
}
Bytes hash(const Sbox& s, const uint8_t* p, size_t n) { HashState h; hinit(h, s); hupdate(h, p, n); return hfinal(h); }
Bytes hmac(const Sbox& s, const Bytes& key, const Bytes& msg)
{
    Bytes k = key; if (k.size() > 32) k = hash(s, k);
    k.resize(32, 0);
    Bytes i(32), o(32);
    for (int j = 0; j < 32; ++j) { i[j] = k[j] ^ 0x36; o[j] = k[j] ^ 0x5c; }
    i.insert(i.end(), msg.begin(), msg.end());
    Bytes in = hash(s, i);
    o.insert(o.end(), in.begin(), in.end());
    return hash(s, o);
}
Bytes pbkdf2(const Sbox& s, const Bytes& pass, const Bytes& salt, unsigned iter, size_t len)
{
    Bytes out;
    for (uint32_t blk = 1; out.size() < len; ++blk)
    {
        Bytes m = salt; for (int i = 3; i >= 0; --i) m.push_back(uint8_t(blk >> (8 * i)));
        Bytes u = hmac(s, pass, m), t = u;
        for (unsigned i = 1; i < iter; ++i) { u = hmac(s, pass, u); for (int j = 0; j < 32; ++j) t[j] ^= u[j]; }
        out.insert(out.end(), t.begin(), t.end());
    }
    out.resize(len);
    return out;
}
Bytes key6_kdf(const Bytes& pass)
{
    static std::map<Bytes, Bytes> cache; static std::mutex mx;
    { std::lock_guard<std::mutex> l(mx); auto it = cache.find(pass); if (it != cache.end()) return it->second; }
    Sbox s = dflt();
    Bytes k = hash(s, pass);
    for (int i = 0; i < 9999; ++i) k = hash(s, k);
    std::lock_guard<std::mutex> l(mx);
    if (cache.size() > 200) cache.clear();
    return cache[pass] = k;
}
void selfcheck()
{
    // GOST R 34.11-94 example of RFC 5831 (test parameter set) and the DSTU strings
    static const char* tp = // rows k1..k8 of id-GostR3411-94-TestParamSet (RFC 4357)
        "4a92d80e6b1c7f53" "eb4c6dfa23810759" "581da342efc7609b" "7da1089fe46cb253"
        "6c715fd84a9e03b2" "4ba0721d36859cfe" "db413f590ae7682c" "1fd057a4923e6b8c";
    Bytes p = unhex(tp);
    struct { const char* msg; const char* h; const uint8_t* tab; } T[] = {
        {"This is message, length=32 bytes", "b1c466d37519b82e8319819ff32595e047a28cb6f83eff1c6916a815a637fffa", p.data()},
        {"Suppose the original message has length = 50 bytes", "471aba57a60a770d3a76130635c1fbea4ef14de51f78b4ae57dd893b62f55208", p.data()},
        {"123456", "9648e365", DEFAULT_PACKED},
        {"abcdefghijklmnopqrstuvwxyz012345", "39e1eae5", DEFAULT_PACKED},
    };
    for (auto& t : T)
    {
        std::string h = hex(hash(unpack(t.tab), (const uint8_t*)t.msg, strlen(t.msg)));
        if (h.compare(0, strlen(t.h), t.h)) { fprintf(stderr, "reference hash wrong for '%s': %s\n", t.msg, h.c_str()); exit(3); }
    }
}
}
