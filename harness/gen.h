// generators shared by the scenarios
#pragma once
#include "env.h"
#include "ref.h"
#include <algorithm>
inline Bytes gen_table(Src& s)
{
    switch (s.below(4))
    {
        case 0: return Bytes(ref::DEFAULT_PACKED, ref::DEFAULT_PACKED + 64);
        case 1: { Bytes t(ref::DEFAULT_PACKED, ref::DEFAULT_PACKED + 64); t[s.below(64)] ^= uint8_t(1 + s.below(255)); return t; }
        case 2: return s.noise(64);
        default: // rows that are permutations
        {
            ref::Sbox b;
            for (int r = 0; r < 8; ++r)
            {
                for (int i = 0; i < 16; ++i) b.k[r][i] = uint8_t(i);
                uint64_t sd = s.bits(2);
                for (int i = 15; i > 0; --i) { sd = mix64(sd); std::swap(b.k[r][i], b.k[r][sd % (i + 1)]); }
            }
            return ref::pack(b);
        }
    }
}
inline std::vector<size_t> gen_cuts(Src& s, size_t n)
{
    std::vector<size_t> parts;
    size_t at = 0;
    unsigned mode = (unsigned)s.below(5);
    if (mode == 0) { parts.push_back(n); return parts; }
    for (int guard = 0; at < n && guard < 400; ++guard)
    {
        size_t k;
        switch (mode)
        {
            case 1: k = 1 + s.below(40); break;
            case 2: k = s.len(n - at); break;
            case 3: { size_t b = 32 - at % 32; k = b + (s.flip() ? 32 * s.below(4) : 0); if (s.flip()) k -= s.below(2); break; }
            default: k = s.below(3) == 0 ? 0 : 1 + s.below(96);
        }
        k = std::min(k, n - at);
        parts.push_back(k); at += k;
    }
    if (at < n) parts.push_back(n - at);
    if (s.chance(40)) parts.push_back(0);
    return parts;
}

