// Bit vectors under test: source bits, a plain bit_vector (built in different ways, with arbitrary
// unused bits in its last word) and the positions to query.
#pragma once
#include "gen.hpp"
#include <sdsl/bit_vectors.hpp>

namespace bvgen
{
using pbt::Src;
using pbt::Rng;
using sdsl::bit_vector;

struct Input {
    gen::Bits b;
    bit_vector bv;
    std::vector<uint64_t> ones; // ones[i] = number of ones in [0,i)
    size_t n() const
    {
        return b.size();
    }
};

inline bit_vector make_bv(Src& s, const gen::Bits& b, bool allow_dirty = true)
{
    size_t n = b.size();
    bit_vector bv;
    switch (s.pick({5, 1, 1, 1})) {
        case 0: bv = bit_vector(n, 0); break;
        case 1: { // grown
            bv = bit_vector(n / 2, s.b());
            bv.resize(n);
            break;
        }
        case 2: { // grown within or to the end of the last word
            bv = bit_vector(n ? n - 1 - s.u(std::min<size_t>(n - 1, 63)) : 0, 1);
            bv.resize(n);
            break;
        }
        default: { // shrunk
            bv = bit_vector(n + 1 + s.u(200), s.b());
            bv.resize(n);
        }
    }
    for (size_t i = 0; i < n; ++i) bv[i] = b[i];
    if (n % 64 and allow_dirty) { // bits behind the end are unspecified
        uint64_t* w = bv.data() + n / 64;
        uint64_t keep = *w & ((1ULL << (n % 64)) - 1), junk = 0;
        switch (s.u(3)) {
            case 0: junk = 0; break;
            case 1: junk = ~0ULL; break;
            case 2: junk = *w; break;
            default: junk = s.seed();
        }
        *w = keep | (junk << (n % 64));
    }
    return bv;
}

inline Input make(Src& s, size_t max)
{
    Input in;
    in.b = gen::bits(s, max);
    in.bv = make_bv(s, in.b);
    in.ones.resize(in.b.size() + 1);
    for (size_t i = 0; i < in.b.size(); ++i) in.ones[i + 1] = in.ones[i] + in.b[i];
    return in;
}

//! Large inputs, so that sampled directories have more than one entry
inline Input make_large(Src& s, size_t lo, size_t hi)
{
    Input in;
    size_t n = s.in(lo, hi);
    size_t segs = 1 + s.u(4);
    while (in.b.size() < n) {
        size_t rest = n - in.b.size(), l = segs <= 1 ? rest : 1 + s.u(rest - 1);
        gen::bit_segment(s, in.b, l);
        if (segs > 1) --segs;
    }
    in.bv = make_bv(s, in.b);
    in.ones.resize(n + 1);
    for (size_t i = 0; i < n; ++i) in.ones[i + 1] = in.ones[i] + in.b[i];
    return in;
}

//! [0,n] completely when small, otherwise corners, block neighbourhoods and random positions
inline std::vector<uint64_t> positions(Src& s, uint64_t n, size_t full, size_t k)
{
    std::vector<uint64_t> p;
    if (n <= full) {
        for (uint64_t i = 0; i <= n; ++i) p.push_back(i);
        return p;
    }
    for (uint64_t i = 0; i < 70; ++i) {
        p.push_back(i);
        p.push_back(n - i);
    }
    Rng r(s.seed());
    for (size_t j = 0; j < k; ++j) {
        uint64_t x = r.below(n + 1);
        if (j % 3 == 0) { // neighbourhood of a block boundary
            uint64_t st = 1ULL << (5 + r.below(10));
            x = x / st * st + r.below(3);
            x = x ? x - 1 : 0;
        }
        p.push_back(std::min(x, n));
    }
    return p;
}
} // namespace bvgen
