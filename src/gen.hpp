// Shared generators. Small structure comes from the tape, bulk content from a tape-seeded Rng.
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <string>
#include <vector>

namespace gen
{
using pbt::Src;
using pbt::Rng;
typedef std::vector<uint8_t> Bits;   // one byte per bit

//! A 64-bit word: random, sparse, dense, runs, periodic, corners
inline uint64_t word(Src& s)
{
    switch (s.pick({3, 2, 2, 3, 2, 3})) {
        case 0: return s.val();
        case 1: {
            uint64_t x = 0;
            for (size_t k = s.u(5); k; --k) x |= 1ULL << s.u(63);
            return x;
        }
        case 2: {
            uint64_t x = ~0ULL;
            for (size_t k = s.u(5); k; --k) x &= ~(1ULL << s.u(63));
            return x;
        }
        case 3: {
            uint64_t x = 0;
            bool v = s.b();
            unsigned i = 0;
            while (i < 64) {
                unsigned r = 1 + s.u(12);
                for (; r and i < 64; --r, ++i) if (v) x |= 1ULL << i;
                v = !v;
            }
            return x;
        }
        case 4: {
            unsigned p = 1 + s.u(8);
            uint64_t pat = s.u((1ULL << p) - 1), x = 0;
            for (unsigned i = 0; i < 64; ++i) if ((pat >> (i % p)) & 1) x |= 1ULL << i;
            return x;
        }
        default: return s.u(~0ULL);
    }
}
inline uint64_t word(Rng& r)
{
    switch (r.below(6)) {
        case 0: return 0;
        case 1: return ~0ULL;
        case 2: return 1ULL << r.below(64);
        case 3: return ~(1ULL << r.below(64));
        case 4: {
            uint64_t x = r.next();
            return x & r.next() & r.next();
        }
        default: return r.next();
    }
}

//! Appends `len` bits of one homogeneous segment.
inline void bit_segment(Src& s, Bits& b, size_t len)
{
    size_t kind = s.pick({4, 4, 3, 2, 3, 2, 2});
    switch (kind) {
        case 0: b.insert(b.end(), len, s.b()); break;                       // constant run
        case 1: { // Bernoulli
            static const uint32_t dens[] = {2, 3, 4, 8, 16, 64, 256, 1024, 4096};
            uint32_t d = dens[s.u(8)];
            bool inv = s.b();
            Rng r(s.seed());
            for (size_t i = 0; i < len; ++i) b.push_back((r.below(d) == 0) != inv);
            break;
        }
        case 2: { // alternating runs of random lengths
            size_t m = s.u(5) == 0 ? 300 : 1 + s.u(40), m2 = s.u(2) ? m : 1 + s.u(200);
            Rng r(s.seed());
            bool v = s.b();
            for (size_t i = 0; i < len;) {
                size_t k = 1 + r.below(v ? m : m2);
                for (; k and i < len; --k, ++i) b.push_back(v);
                v = !v;
            }
            break;
        }
        case 3: { // periodic
            size_t p = 1 + s.u(20);
            uint64_t pat = s.u((1ULL << p) - 1);
            for (size_t i = 0; i < len; ++i) b.push_back((pat >> (i % p)) & 1);
            break;
        }
        case 4: { // a few isolated bits in a constant background
            bool v = s.b();
            size_t st = b.size();
            b.insert(b.end(), len, v);
            if (len) for (size_t k = s.u(6); k; --k) b[st + s.pos(len)] = !v;
            break;
        }
        case 5: { // homogeneous 64-bit-word mixture
            Rng r(s.seed());
            uint64_t w = 0;
            for (size_t i = 0; i < len; ++i) {
                if (i % 64 == 0) w = gen::word(r);
                b.push_back((w >> (i % 64)) & 1);
            }
            break;
        }
        default: { // equally spaced bits
            size_t g = 1 + s.u(s.b() ? 70 : 5000);
            bool v = s.b();
            size_t off = s.u(g);
            for (size_t i = 0; i < len; ++i) b.push_back((i % g == off % g) != v);
        }
    }
}

//! A bit sequence of at most max bits: 1..5 segments, lengths often at block boundaries
inline Bits bits(Src& s, size_t max)
{
    Bits b;
    size_t n = s.len(max);
    if (s.chance(1, 3)) { // align the length near a block boundary
        static const size_t blk[] = {8, 15, 31, 63, 64, 127, 128, 256, 384, 512, 1024, 2048, 4096, 6144};
        size_t k = blk[s.u(13)];
        n = n / k * k + s.u(2);
        n = n ? n - 1 : 0;
        if (n > max) n = max;
    }
    size_t segs = 1 + (s.chance(1, 2) ? s.u(5) : 0);
    while (b.size() < n) {
        size_t rest = n - b.size();
        size_t l = segs <= 1 ? rest : 1 + s.u(rest - 1);
        if (segs > 1 and s.chance(1, 3)) {
            size_t k = (size_t)1 << s.in(3, 12);
            l = std::min(rest, (l + k - 1) / k * k);
        }
        bit_segment(s, b, l);
        if (segs > 1) --segs;
    }
    return b;
}

inline std::string bitstr(const Bits& b, size_t max = 120)
{
    std::string r = "n=" + pbt::str(b.size()) + " ones=" + pbt::str(std::count(b.begin(), b.end(), 1)) + " bits=";
    for (size_t i = 0; i < b.size() and i < max; ++i) r += b[i] ? '1' : '0';
    if (b.size() > max) r += "...";
    return r;
}

//! A text over bytes 1..255 (or up to `sigma` different symbols when given)
inline std::string text(Src& s, size_t max, unsigned sigma_max = 255)
{
    size_t n = s.len(max);
    std::string t;
    std::vector<uint8_t> al;
    { // alphabet
        size_t sig = 1;
        switch (s.u(5)) {
            case 0: sig = 1; break;
            case 1: sig = 2; break;
            case 2: sig = 1 + s.u(4); break;
            case 3: sig = 1 + s.u(25); break;
            default: sig = 1 + s.u(254);
        }
        sig = std::min<size_t>(sig, sigma_max);
        size_t kind = s.pick({3, 1, 1});
        if (kind == 0) { // contiguous from a start
            size_t st = s.b() ? 97 : 1 + s.u(254);
            for (size_t i = 0; i < sig; ++i) al.push_back(1 + (st - 1 + i) % 255);
        } else if (kind == 1) { // contiguous from 1
            for (size_t i = 0; i < sig; ++i) al.push_back(1 + i);
        } else { // scattered, includes the extremes
            Rng r(s.seed());
            for (size_t i = 0; i < sig; ++i) al.push_back(i == 0 ? 255 : i == 1 ? 1 : 1 + r.below(255));
        }
    }
    size_t A = al.size();
    size_t kind = s.pick({5, 3, 3, 2, 2, 3, 2, 2});
    switch (kind) {
        case 0: {
            Rng r(s.seed());
            for (size_t i = 0; i < n; ++i) t += (char)al[r.below(A)];
            break;
        }
        case 1: { // runs
            Rng r(s.seed());
            size_t m = 1 + s.u(40);
            while (t.size() < n) t.append(1 + r.below(m), (char)al[r.below(A)]);
            t.resize(n);
            break;
        }
        case 2: { // periodic with rare mutation
            size_t p = 1 + s.u(30);
            Rng r(s.seed());
            std::string u;
            for (size_t i = 0; i < p; ++i) u += (char)al[r.below(A)];
            for (size_t i = 0; i < n; ++i) t += u[i % p];
            if (n) for (size_t k = s.u(3); k; --k) t[s.pos(n)] = (char)al[r.below(A)];
            break;
        }
        case 3: { // Fibonacci word
            std::string a(1, (char)al[0]), b = a + (char)al[A > 1 ? 1 : 0];
            while (b.size() < n) {
                std::string c2 = b + a;
                a = b;
                b = c2;
            }
            t = b.substr(0, n);
            break;
        }
        case 4: { // skewed distribution
            Rng r(s.seed());
            for (size_t i = 0; i < n; ++i) {
                size_t k = 0;
                while (k + 1 < A and (r.next() & 1)) ++k;
                t += (char)al[k];
            }
            break;
        }
        case 5: { // copies of earlier material
            Rng r(s.seed());
            while (t.size() < n) {
                if (t.size() < 4 or r.below(6) == 0) t += (char)al[r.below(A)];
                else {
                    size_t st = r.below(t.size()), l = 1 + r.below(t.size() - st);
                    t += t.substr(st, l);
                }
            }
            t.resize(n);
            break;
        }
        case 6: { // all symbols once in order, then random
            Rng r(s.seed());
            for (size_t i = 0; i < n; ++i) t += (char)al[i < A ? i : r.below(A)];
            break;
        }
        default: // single symbol with a different last/first one
            t.assign(n, (char)al[0]);
            if (n and s.b()) t[n - 1] = (char)al[A - 1];
            if (n and s.b()) t[0] = (char)al[A - 1];
    }
    return t;
}

//! Integer sequence, values < 2^w; shapes: uniform, small, skewed, runs, monotone, few distinct, extremes
inline std::vector<uint64_t> ints(Src& s, size_t max, unsigned w, bool* sorted = nullptr)
{
    size_t n = s.len(max);
    uint64_t mask = w >= 64 ? ~0ULL : (1ULL << w) - 1;
    std::vector<uint64_t> v;
    v.reserve(n);
    size_t kind = s.pick({3, 3, 3, 2, 3, 2, 2});
    uint64_t top = s.b() ? mask : s.val(w);
    if (sorted) *sorted = false;
    switch (kind) {
        case 0: { // from the tape, while short
            if (n <= 64) {
                for (size_t i = 0; i < n; ++i) v.push_back(s.val(w));
                break;
            }
        } // fall through
        case 1: {
            Rng r(s.seed());
            for (size_t i = 0; i < n; ++i) v.push_back(r.upto(top));
            break;
        }
        case 2: { // log-uniform
            Rng r(s.seed());
            for (size_t i = 0; i < n; ++i) {
                unsigned k = r.below(w) + 1;
                v.push_back(r.next() & (k >= 64 ? ~0ULL : (1ULL << k) - 1));
            }
            break;
        }
        case 3: { // runs
            Rng r(s.seed());
            uint64_t x = top;
            for (size_t i = 0; i < n; ++i) {
                if (r.below(8) == 0) x = r.upto(top);
                v.push_back(x);
            }
            break;
        }
        case 4: { // non-decreasing
            Rng r(s.seed());
            uint64_t g = n ? std::max<uint64_t>(1, top / n) : 1, x = 0;
            bool zeros = s.b();
            for (size_t i = 0; i < n; ++i) {
                uint64_t d = zeros and r.below(2) ? 0 : r.upto(g);
                x = (mask - x < d) ? mask : x + d;
                v.push_back(x);
            }
            if (sorted) *sorted = true;
            break;
        }
        case 5: { // few distinct values
            std::vector<uint64_t> d;
            for (size_t k = 1 + s.u(4); k; --k) d.push_back(s.val(w));
            Rng r(s.seed());
            for (size_t i = 0; i < n; ++i) v.push_back(d[r.below(d.size())]);
            break;
        }
        default: { // small with rare large ones
            Rng r(s.seed());
            uint64_t sm = 1 + s.u(7);
            for (size_t i = 0; i < n; ++i) v.push_back(r.below(32) ? std::min(mask, r.below(sm)) : r.upto(top));
        }
    }
    return v;
}

//! A permutation of [0,n): cycle structure chosen explicitly
inline std::vector<uint64_t> perm(Src& s, size_t max)
{
    size_t n = s.len(max);
    std::vector<uint64_t> p(n), o(n);
    for (size_t i = 0; i < n; ++i) p[i] = o[i] = i;
    size_t kind = s.pick({3, 1, 1, 2, 4});
    Rng r(s.seed());
    auto shuffle = [&](std::vector<uint64_t>& v) {
        for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
    };
    if (kind == 0) shuffle(p);
    else if (kind == 1) {}
    else if (kind == 2) std::reverse(p.begin(), p.end());
    else { // cycles of chosen lengths over shuffled elements
        size_t m = 1 + s.u(kind == 3 ? 3 : 100);
        bool fixed_len = s.b();
        if (s.b()) shuffle(o);
        for (size_t i = 0; i < n;) {
            size_t l = std::min(n - i, fixed_len ? m : 1 + (size_t)r.below(m));
            for (size_t j = 0; j < l; ++j) p[o[i + j]] = o[i + (j + 1) % l];
            i += l;
        }
    }
    return p;
}
} // namespace gen
