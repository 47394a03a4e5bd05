// Texts (byte and integer alphabets) and their reference suffix structures.
#pragma once
#include "gen.hpp"
#include <algorithm>
#include <numeric>

// symbols >= 1, without the final 0
inline std::vector<uint64_t> special_text(pbt::Src& s, size_t max)
{
    size_t n = s.len(max);
    std::vector<uint64_t> t;
    switch (s.u(5)) {
        case 0: // Thue-Morse
            for (size_t i = 0; i < n; ++i) t.push_back(1 + __builtin_parityll(i));
            break;
        case 1: // period doubling
            for (size_t i = 1; i <= n; ++i) t.push_back(1 + (__builtin_ctzll(i) & 1));
            break;
        case 2: // ruler
            for (size_t i = 1; i <= n; ++i) t.push_back(1 + __builtin_ctzll(i));
            break;
        case 3: { // a^k b a^k c ... with growing or equal k
            uint64_t k = s.u(20), x = 2;
            bool grow = s.b();
            while (t.size() < n) {
                t.insert(t.end(), k, 1);
                t.push_back(x);
                if (grow) ++k;
                if (s.b()) x = 2 + s.u(3);
            }
            t.resize(n);
            break;
        }
        case 4: { // linear feedback sequence over k symbols: (almost) all q-grams once
            uint64_t k = 2 + s.u(3), a = 1 + s.u(50), x = s.u(~0ULL);
            for (size_t i = 0; i < n; ++i) {
                x = x * 6364136223846793005ULL + a;
                t.push_back(1 + (x >> 40) % k);
            }
            break;
        }
        default: { // square: w w, or w reverse(w)
            std::string w = gen::text(s, n / 2, 8);
            for (auto ch : w) t.push_back((uint8_t)ch);
            size_t m = t.size();
            bool rev = s.b();
            for (size_t i = 0; i < m; ++i) t.push_back(rev ? t[m - 1 - i] : t[i]);
        }
    }
    return t;
}
// long repeated blocks with varying left and right context: long LCP values with irregular BWT
inline std::vector<uint64_t> block_text(pbt::Src& s, size_t max)
{
    std::vector<uint64_t> blk, t;
    size_t len = s.pick({1, 3}) ? s.in(240, 330) : s.in(1, 600);
    unsigned sig = s.u(2);
    uint64_t top = s.b() ? 9 : 1;
    pbt::Rng r(s.seed());
    for (size_t i = 0; i < len; ++i) blk.push_back(sig == 0 ? top : top + (top == 9 ? -(int)r.upto(sig) : (int)r.upto(sig)));
    size_t k = s.u(12);
    unsigned ctx = s.u(3);
    for (size_t i = 0; i <= k and t.size() < max; ++i) {
        size_t pre = s.b() ? 1 : s.u(3), off = s.chance(1, 4) ? s.u(len) : 0;
        for (size_t j = 0; j < pre; ++j) t.push_back(4 + r.upto(ctx));
        t.insert(t.end(), blk.begin() + off, blk.end());
        if (s.chance(1, 3)) t.push_back(4 + r.upto(ctx));
    }
    if (t.size() > max) t.resize(max);
    return t;
}
// byte text over 1..255 without the final 0
inline std::vector<uint64_t> byte_text(pbt::Src& s, size_t max, unsigned sigma_max = 255)
{
    size_t kind = s.pick({9, 3, 1});
    if (kind) {
        auto t = kind == 1 ? special_text(s, max) : block_text(s, max);
        for (auto& x : t) x = (x - 1) % sigma_max + 1;
        return t;
    }
    std::string w = gen::text(s, max, sigma_max);
    std::vector<uint64_t> t;
    for (auto ch : w) t.push_back((uint8_t)ch);
    return t;
}
// integer text, symbols in [1,maxsym]
inline std::vector<uint64_t> int_text(pbt::Src& s, size_t max, uint64_t maxsym)
{
    std::vector<uint64_t> t;
    unsigned w = 64 - __builtin_clzll(maxsym);
    switch (s.pick({3, 2, 3, 2})) {
        case 0: t = byte_text(s, max); break;
        case 1: t = gen::ints(s, max, s.in(1, w)); break;
        case 2: { // the structure of a byte text, symbols spread over the large alphabet
            t = byte_text(s, max);
            pbt::Rng r(s.seed());
            uint64_t x = 0, mul = 1 + r.upto(maxsym / 257), add = r.upto(maxsym);
            (void)x;
            bool mono = s.b();
            for (auto& y : t) y = mono ? y * mul : (y * mul * 7919 + add);
            break;
        }
        default: { // permutation like: all different
            auto p = gen::perm(s, max);
            for (auto x : p) t.push_back(x + 1);
        }
    }
    for (auto& x : t) {
        if (x > maxsym) x = x % maxsym + 1;
        if (x == 0) x = 1;
    }
    return t;
}

// reference structures of a text that ends with a unique smallest 0
struct TextModel {
    std::vector<uint64_t> t, sa, isa, lcp, bwt;
    size_t n = 0;
    void build(std::vector<uint64_t> text)   // text without the final 0
    {
        t = std::move(text);
        t.push_back(0);
        n = t.size();
        // prefix doubling with counting sort
        sa.resize(n);
        std::vector<uint64_t> rk(n), nx(n), tmp(n), cnt(n + 2);
        {
            auto al = t;
            std::sort(al.begin(), al.end());
            al.erase(std::unique(al.begin(), al.end()), al.end());
            for (size_t i = 0; i < n; ++i) rk[i] = std::lower_bound(al.begin(), al.end(), t[i]) - al.begin();
        }
        std::iota(tmp.begin(), tmp.end(), 0);
        for (size_t k = 0;; k = k ? 2 * k : 1) {
            if (k) { // order by the second key: suffixes without one first
                size_t x = 0;
                for (size_t i = n - std::min(n, k); i < n; ++i) tmp[x++] = i;
                for (size_t i = 0; i < n; ++i) if (sa[i] >= k) tmp[x++] = sa[i] - k;
            }
            std::fill(cnt.begin(), cnt.end(), 0);
            for (size_t i = 0; i < n; ++i) ++cnt[rk[i] + 1];
            for (size_t i = 1; i < cnt.size(); ++i) cnt[i] += cnt[i - 1];
            for (size_t i = 0; i < n; ++i) sa[cnt[rk[tmp[i]]]++] = tmp[i];
            uint64_t c = 0;
            for (size_t i = 0; i < n; ++i) {
                if (i) {
                    uint64_t p = sa[i - 1], q = sa[i];
                    bool same = rk[p] == rk[q];
                    if (k) same = same and (p + k < n ? rk[p + k] + 1 : 0) == (q + k < n ? rk[q + k] + 1 : 0);
                    c += !same;
                }
                nx[sa[i]] = c;
            }
            rk.swap(nx);
            if (c + 1 == n) break;
        }
        isa.assign(n, 0);
        bwt.assign(n, 0);
        for (size_t i = 0; i < n; ++i) {
            isa[sa[i]] = i;
            bwt[i] = t[(sa[i] + n - 1) % n];
        }
        lcp.assign(n, 0);
        size_t h = 0;
        for (size_t p = 0; p < n; ++p) {
            if (isa[p] == 0) {
                h = 0;
                continue;
            }
            size_t q = sa[isa[p] - 1];
            while (p + h < n and q + h < n and t[p + h] == t[q + h]) ++h;
            lcp[isa[p]] = h;
            if (h) --h;
        }
    }
    // suffix array interval [lo,hi) of the suffixes that start with p
    std::pair<size_t, size_t> interval(const std::vector<uint64_t>& p) const
    {
        auto cmp_lt = [&](uint64_t suf) { // suffix < p (as prefix order)
            for (size_t k = 0; k < p.size(); ++k) {
                if (suf + k >= n) return true;
                if (t[suf + k] != p[k]) return t[suf + k] < p[k];
            }
            return false;
        };
        auto cmp_le = [&](uint64_t suf) { // suffix starts with p or is smaller
            for (size_t k = 0; k < p.size(); ++k) {
                if (suf + k >= n) return true;
                if (t[suf + k] != p[k]) return t[suf + k] < p[k];
            }
            return true;
        };
        size_t lo = 0, hi = n;
        while (lo < hi) {
            size_t m = (lo + hi) / 2;
            if (cmp_lt(sa[m])) lo = m + 1;
            else hi = m;
        }
        size_t b = lo;
        hi = n;
        while (lo < hi) {
            size_t m = (lo + hi) / 2;
            if (cmp_le(sa[m])) lo = m + 1;
            else hi = m;
        }
        return std::make_pair(b, lo);
    }
};
inline std::string text_str(const std::vector<uint64_t>& t, bool bytes)
{
    if (!bytes) return pbt::vec(t);
    std::string r;
    for (auto x : t) r += (char)x;
    return pbt::quoted(r);
}
