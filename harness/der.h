// minimal DER writer and reader (independent of the code under test)
#pragma once
#include "src.h"
#include <initializer_list>
namespace der
{
inline Bytes len(size_t n)
{
    if (n < 128) return Bytes{uint8_t(n)};
    Bytes b; for (size_t k = n; k; k >>= 8) b.insert(b.begin(), uint8_t(k));
    b.insert(b.begin(), uint8_t(0x80 | b.size()));
    return b;
}
inline Bytes tlv(uint8_t tag, const Bytes& v) { Bytes r{tag}; Bytes l = len(v.size()); r.insert(r.end(), l.begin(), l.end()); r.insert(r.end(), v.begin(), v.end()); return r; }
inline Bytes cat(std::initializer_list<Bytes> l) { Bytes r; for (auto& x : l) r.insert(r.end(), x.begin(), x.end()); return r; }
inline Bytes seq(std::initializer_list<Bytes> l) { return tlv(0x30, cat(l)); }
inline Bytes seqb(const Bytes& b) { return tlv(0x30, b); }
inline Bytes setb(const Bytes& b) { return tlv(0x31, b); }
inline Bytes oct(const Bytes& b) { return tlv(0x04, b); }
inline Bytes bits(const Bytes& b, uint8_t unused = 0) { Bytes v{unused}; v.insert(v.end(), b.begin(), b.end()); return tlv(0x03, v); }
inline Bytes null() { return Bytes{5, 0}; }
inline Bytes uint_be(const Bytes& be)   // non-negative INTEGER from big-endian bytes
{
    size_t i = 0; while (i < be.size() && !be[i]) ++i;
    Bytes v(be.begin() + i, be.end());
    if (v.empty() || v[0] & 0x80) v.insert(v.begin(), 0);
    return tlv(0x02, v);
}
inline Bytes integer(uint64_t x) { Bytes b; for (int i = 7; i >= 0; --i) b.push_back(uint8_t(x >> (8 * i))); return uint_be(b); }
inline Bytes oid(const char* dotted)
{
    std::vector<uint64_t> a; const char* p = dotted;
    while (*p) { char* e; a.push_back(strtoull(p, &e, 10)); p = *e == '.' ? e + 1 : e; }
    Bytes v; 
    auto put = [&](uint64_t x) { Bytes t; t.push_back(uint8_t(x & 127)); while (x >>= 7) t.insert(t.begin(), uint8_t(0x80 | (x & 127))); v.insert(v.end(), t.begin(), t.end()); };
    put(a[0] * 40 + a[1]); for (size_t i = 2; i < a.size(); ++i) put(a[i]);
    return tlv(0x06, v);
}
inline Bytes utf8(const std::string& s) { return tlv(0x0c, Bytes(s.begin(), s.end())); }
inline Bytes ctx(int n, const Bytes& b) { return tlv(uint8_t(0xa0 | n), b); }

struct Node { uint8_t tag; Bytes val; size_t total; };
// one element at p; throws PropFail-free: returns false when malformed
inline bool read(const uint8_t* p, size_t n, Node* o)
{
    if (n < 2) return false;
    o->tag = p[0]; size_t l = p[1], h = 2;
    if (l & 0x80) { size_t k = l & 0x7f; if (k == 0 || k > 4 || n < 2 + k) return false; l = 0; for (size_t i = 0; i < k; ++i) l = l << 8 | p[2 + i]; h += k; }
    if (n - h < l) return false;
    o->val.assign(p + h, p + h + l); o->total = h + l;
    return true;
}
inline bool children(const Bytes& b, std::vector<Node>* out)
{
    size_t at = 0;
    while (at < b.size()) { Node n; if (!read(b.data() + at, b.size() - at, &n)) return false; out->push_back(n); at += n.total; }
    return true;
}
}
