// structure-aware mutation of DER
#pragma once
#include "der.h"
#include <functional>
namespace mut
{
struct T { uint8_t tag; Bytes val; std::vector<T> kids; bool cons = false; };
inline bool parse(const Bytes& b, std::vector<T>* out, int depth = 0)
{
    std::vector<der::Node> n;
    if (!der::children(b, &n)) return false;
    for (auto& x : n)
    {
        T t; t.tag = x.tag; t.val = x.val;
        if (depth < 12 && (x.tag & 0x20) && parse(x.val, &t.kids, depth + 1)) t.cons = true; else t.kids.clear();
        // strings that hold DER (public key point, PKCS#12 contents)
        if (!t.cons && depth < 12 && x.tag == 4 && x.val.size() > 4 && x.val[0] == 0x30) { std::vector<T> k; if (parse(x.val, &k, depth + 1)) { t.kids = k; t.cons = true; } }
        out->push_back(t);
    }
    return true;
}
inline Bytes encode(const std::vector<T>& v)
{
    Bytes r;
    for (auto& t : v) { Bytes e = der::tlv(t.tag, t.cons ? encode(t.kids) : t.val); r.insert(r.end(), e.begin(), e.end()); }
    return r;
}
inline void collect(std::vector<T>& v, std::vector<std::pair<std::vector<T>*, size_t>>* o) { for (size_t i = 0; i < v.size(); ++i) { o->push_back({&v, i}); if (v[i].cons) collect(v[i].kids, o); } }
inline Bytes odd_int(Src& s)
{
    static const char* k[] = {"00", "01", "02", "ff", "7f", "0080", "7fffffff", "0080000000", "00ffffffff", "7fffffffffffffff", "008000000000000000", "80", "0100", "ffffff", "", "00a3", "0101", "01af", "023b", "0295", "0296", "7fff"};
    return unhex(k[s.below(sizeof k / sizeof *k)]);
}
inline void one(Src& s, std::vector<T>& top, std::string* how)
{
    std::vector<std::pair<std::vector<T>*, size_t>> all; collect(top, &all);
    if (all.empty()) return;
    auto pk = all[s.below(all.size())];
    T& t = (*pk.first)[pk.second];
    char d[60];
    switch (s.below(14))
    {
        case 0: pk.first->erase(pk.first->begin() + pk.second); *how += "drop "; return;
        case 1: { T c = t; pk.first->insert(pk.first->begin() + pk.second, c); *how += "dup "; return; }
        case 2: { auto q = all[s.below(all.size())]; T c = (*q.first)[q.second]; t = c; *how += "graft "; return; }
        case 3: if (pk.second + 1 < pk.first->size()) std::swap(t, (*pk.first)[pk.second + 1]); *how += "swap "; return;
        case 4: { static const uint8_t tags[] = {0x02, 0x03, 0x04, 0x05, 0x06, 0x0c, 0x30, 0x31, 0xa0, 0xa1, 0x80, 0x24}; t.tag = tags[s.below(12)]; *how += "tag "; return; }
        case 5: { T n; n.tag = 0x05; *pk.first->insert(pk.first->begin() + pk.second, n); *how += "insert-null "; return; }
        case 6: if (t.cons) { t.kids.clear(); } else t.val.clear(); *how += "empty "; return;
        default: break;
    }
    if (t.cons) { if (s.flip() && !t.kids.empty()) t.kids.pop_back(); else { t.val = s.raw(s.below(6)); t.cons = false; t.kids.clear(); } *how += "content "; return; }
    if (t.tag == 2) { t.val = s.flip() ? odd_int(s) : s.raw(1 + s.below(4)); snprintf(d, sizeof d, "int=%s ", hex(t.val, 9).c_str()); *how += d; return; }
    switch (s.below(7))
    {
        case 0: if (!t.val.empty()) t.val[s.below(t.val.size())] ^= uint8_t(1 << s.below(8)); *how += "bit "; break;
        case 1: if (!t.val.empty()) t.val.pop_back(); *how += "shorter "; break;
        case 2: t.val.push_back(s.byte()); *how += "longer "; break;
        case 3: t.val.insert(t.val.begin(), s.byte()); *how += "prefixed "; break;
        case 4: { size_t n = t.val.size(); t.val.assign(n, s.flip() ? 0 : 0xff); *how += "filled "; break; }
        case 5: t.val = s.noise(t.val.size()); *how += "random "; break;
        default: t.val = s.blob(s.len(300)); *how += "replaced ";
    }
}
// a mutated copy; tree mutations keep the enclosing lengths consistent, byte mutations do not
inline Bytes der_mutate(Src& s, const Bytes& b, std::string* how)
{
    std::vector<T> t;
    Bytes r = b;
    int n = 1 + (int)s.below(3);
    if (!s.chance(70) && parse(b, &t)) { for (int i = 0; i < n; ++i) one(s, t, how); r = encode(t); }
    else
        for (int i = 0; i < n && !r.empty(); ++i)
            switch (s.below(5))
            {
                case 0: r[s.below(r.size())] ^= uint8_t(1 << s.below(8)); *how += "raw-bit "; break;
                case 1: r[s.below(r.size())] = s.byte(); *how += "raw-byte "; break;
                case 2: r.resize(s.below(r.size() + 1)); *how += "cut "; break;
                case 3: { size_t at = s.below(r.size() + 1); r.insert(r.begin() + at, s.byte()); *how += "raw-ins "; break; }
                default: { size_t at = s.below(r.size()); r.erase(r.begin() + at); *how += "raw-del "; break; }
            }
    return r;
}
}
