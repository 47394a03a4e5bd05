// C04, C05 (SELECT), C03 (ACCESS): vectors of more than 2^32 bits, constant but for some flipped bits at chosen places.
#include "bvgen.hpp"
#include <sdsl/vectors.hpp>
#include <set>
using namespace sdsl;
using namespace pbt;
using std::vector;

namespace
{
struct Huge {
    bit_vector bv;
    uint64_t n;
    bool base;
    vector<uint64_t> flip; // positions of the bits that are different
    uint64_t flips(uint64_t i) const { return std::lower_bound(flip.begin(), flip.end(), i) - flip.begin(); }
    uint64_t rank(uint64_t i, bool one) const { return one == base ? i - flips(i) : flips(i); }
    uint64_t count(bool one) const { return rank(n, one); }
    uint64_t select(uint64_t k, bool one) const
    {
        if (one != base) return flip[k - 1];
        size_t lo = 0, hi = flip.size();
        while (lo < hi) {
            size_t m = (lo + hi) / 2;
            if (flip[m] - m < k) lo = m + 1;
            else hi = m;
        }
        return k - 1 + lo;
    }
};
uint64_t place(Src& s, uint64_t n)
{
    uint64_t p;
    switch (s.u(4)) {
        case 0: p = s.u(5000); break;
        case 1: p = n - 1 - s.u(5000); break;
        case 2: p = (1ULL << 32) - 2500 + s.u(5000); break;
        case 3: p = (1ULL << 31) - 2500 + s.u(5000); break;
        default: p = s.u(n - 1);
    }
    return p % n;
}
Huge make(Src& s, Ctx& c, bool base)
{
    Huge h;
    h.base = base;
    h.n = (1ULL << 32) + (s.b() ? s.u(1 << 20) : 64 * s.u(1 << 14));
    std::set<uint64_t> f;
    size_t groups = 2 + s.u(12);
    for (size_t g = 0; g < groups; ++g) {
        uint64_t p = place(s, h.n), gap = 1 + (s.b() ? 0 : s.u(300));
        Rng r(s.seed());
        for (size_t k = s.len(6000) + 1; k-- and p < h.n; p += 1 + r.below(gap)) f.insert(p);
    }
    h.flip.assign(f.begin(), f.end());
    h.bv = bit_vector(h.n, base);
    for (auto p : h.flip) h.bv[p] = !base;
    c.nt(true);
    c.describe([&] { return str(h.n) + " bits " + str((uint64_t)base) + ", " + str((uint64_t)h.flip.size()) + " flipped: " + vec(h.flip); });
    return h;
}
vector<uint64_t> spots(Src& s, const Huge& h)
{
    vector<uint64_t> at{0, h.n, 1ULL << 31, 1ULL << 32, (1ULL << 32) - 1};
    for (int i = 0; i < 300; ++i) at.push_back(place(s, h.n));
    Rng r(s.seed());
    for (int i = 0; i < 600; ++i) at.push_back(std::min(h.n, h.flip[r.below(h.flip.size())] + r.below(3)));
    return at;
}
template<class R, class V> void rank(Src& s, const V& v, const Huge& h, bool one, const char* what)
{
    R r(&v);
    for (auto i : spots(s, h)) eq(r.rank(i), h.rank(i, one), what, i, h.n);
    eq(r.size(), h.n, "size of the support");
}
template<class S, class V> void select(Src& s, const V& v, const Huge& h, bool one, const char* what)
{
    S sel(&v);
    uint64_t m = h.count(one);
    for (auto i : spots(s, h)) {
        uint64_t k = h.rank(i, one) + s.u(1);
        if (k >= 1 and k <= m) eq(sel.select(k), h.select(k, one), what, k, h.n);
    }
    eq(sel.select(1), h.select(1, one), what, 1, h.n);
    eq(sel.select(m), h.select(m, one), what, m, h.n);
}
template<class V> void access(Src& s, const V& v, const Huge& h)
{
    eq(v.size(), h.n, "size");
    for (auto i : spots(s, h)) if (i < h.n) eq((bool)v[i], std::binary_search(h.flip.begin(), h.flip.end(), i) ? !h.base : h.base, "bit", i, h.n);
}
}
#ifdef ACCESS
template<class V> void words(Src& s, const V& v, const Huge& h)
{
    for (auto i : spots(s, h)) {
        uint64_t len = 1 + s.u(63), want = 0;
        if (i >= h.n) continue;
        len = std::min<uint64_t>(len, h.n - i);
        auto it = std::lower_bound(h.flip.begin(), h.flip.end(), i);
        for (; it != h.flip.end() and *it < i + len; ++it) want |= 1ULL << (*it - i);
        if (h.base) want = ~want & bits::lo_set[len];
        eq((uint64_t)v.get_int(i, len), want, "get_int", i, len);
    }
}
#define ENC(name, n, ...) TARGET(name, n) { typedef __VA_ARGS__ V; auto h = make(s, c, s.b()); V v(h.bv); h.bv = bit_vector(); access(s, v, h); words(s, v, h); }
#define SPARSE(name, n, ...) TARGET(name, n) { typedef __VA_ARGS__ V; auto h = make(s, c, 0); V v(h.bv); h.bv = bit_vector(); access(s, v, h); words(s, v, h); }
TARGET("huge_plain", 2)
{
    auto h = make(s, c, s.b());
    access(s, h.bv, h);
    words(s, h.bv, h);
}
ENC("huge_hyb", 1, hyb_vector<>)
#elif defined(SELECT)
#define ENC(name, n, ...) TARGET(name, n) { typedef __VA_ARGS__ V; auto h = make(s, c, s.b()); V v(h.bv); h.bv = bit_vector(); bool b = s.b(); \
    if (b) select<V::select_1_type>(s, v, h, 1, "select_1"); else select<V::select_0_type>(s, v, h, 0, "select_0"); }
#define SPARSE(name, n, ...) TARGET(name, n) { typedef __VA_ARGS__ V; auto h = make(s, c, 0); V v(h.bv); h.bv = bit_vector(); \
    select<V::select_1_type>(s, v, h, 1, "select_1"); select<V::select_0_type>(s, v, h, 0, "select_0"); }
TARGET("huge_mcl", 4)
{
    bool base = s.b();
    auto h = make(s, c, base);
    if (base) select<select_support_mcl<0>>(s, h.bv, h, 0, "select_support_mcl<0>");
    else select<select_support_mcl<1>>(s, h.bv, h, 1, "select_support_mcl<1>");
}
TARGET("huge_mcl_dense", 1)
{
    bool base = s.b();
    auto h = make(s, c, base);
    if (base) select<select_support_mcl<1>>(s, h.bv, h, 1, "select_support_mcl<1>");
    else select<select_support_mcl<0>>(s, h.bv, h, 0, "select_support_mcl<0>");
}
#else
#define ENC(name, n, ...) TARGET(name, n) { typedef __VA_ARGS__ V; auto h = make(s, c, s.b()); V v(h.bv); h.bv = bit_vector(); access(s, v, h); bool b = s.b(); \
    if (b) rank<V::rank_1_type>(s, v, h, 1, "rank_1"); else rank<V::rank_0_type>(s, v, h, 0, "rank_0"); }
#define SPARSE(name, n, ...) TARGET(name, n) { typedef __VA_ARGS__ V; auto h = make(s, c, 0); V v(h.bv); h.bv = bit_vector(); access(s, v, h); \
    rank<V::rank_1_type>(s, v, h, 1, "rank_1"); rank<V::rank_0_type>(s, v, h, 0, "rank_0"); }
TARGET("huge_v", 3)
{
    auto h = make(s, c, s.b());
    access(s, h.bv, h);
    rank<rank_support_v<1>>(s, h.bv, h, 1, "rank_support_v<1>");
    rank<rank_support_v<0>>(s, h.bv, h, 0, "rank_support_v<0>");
}
TARGET("huge_v5", 3)
{
    auto h = make(s, c, s.b());
    rank<rank_support_v5<1>>(s, h.bv, h, 1, "rank_support_v5<1>");
    rank<rank_support_v5<0>>(s, h.bv, h, 0, "rank_support_v5<0>");
}
ENC("huge_hyb", 1, hyb_vector<>)
#endif
ENC("huge_il", 2, bit_vector_il<512>)
ENC("huge_rrr15", 1, rrr_vector<15>)
ENC("huge_rrr63", 1, rrr_vector<63>)
ENC("huge_rrr256", 1, rrr_vector<256>)
SPARSE("huge_sd", 3, sd_vector<>)
