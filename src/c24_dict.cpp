// C24: inverse permutations and nearest neighbour dictionaries.
#include "pbt.hpp"
#include "gen.hpp"
#include "bvgen.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/inv_perm_support.hpp>
#include <sdsl/nearest_neighbour_dictionary.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <set>
#include <numeric>
#include <sstream>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

#if PART == 0
// A permutation made of cycles of chosen lengths over shuffled (or consecutive) positions.
static vector<uint64_t> permutation(Src& s, Ctx& c, uint64_t ts)
{
    size_t n = s.chance(1, 6) ? s.u(5000) : s.len(300);
    size_t mode = s.u(5);
    static const char* names[] = {"random", "identity", "one cycle", "cycles near the sampling distance", "equal cycles", "involution"};
    c.label(names[mode]);
    uint64_t len = 1 + s.u(2 * std::min<uint64_t>(ts, 500) + 2);
    bool consecutive = s.b();
    Rng r(s.seed());
    vector<uint64_t> p(n), at(n);
    std::iota(p.begin(), p.end(), 0);
    at = p;
    for (size_t i = n; i > 1; --i) std::swap(at[i - 1], at[consecutive ? i - 1 : r.below(i)]);
    if (mode == 0) return at.size() and consecutive ? p : at;
    size_t i = 0;
    while (i < n) {
        uint64_t l = 1;
        if (mode == 2) l = n;
        if (mode == 3) l = ts * (r.below(3)) + r.below(4);
        if (mode == 4) l = len;
        if (mode == 5) l = 1 + r.below(2);
        l = std::max<uint64_t>(1, std::min<uint64_t>(l, n - i));
        for (uint64_t k = 0; k < l; ++k) p[at[i + k]] = at[i + (k + 1) % l];
        i += l;
    }
    return p;
}
template<class I> void inv(Src& s, Ctx& c, uint64_t ts)
{
    auto p = permutation(s, c, ts);
    c.nt(p.size() > 2);
    c.describe([&]() {
        return "permutation " + vec(p, 80);
    });
    int_vector<> v(p.size(), 0, 64);
    for (size_t i = 0; i < p.size(); ++i) v[i] = p[i];
    if (s.b()) util::bit_compress(v);
    I x(&v);
    if (s.chance(1, 4)) {
        std::stringstream o;
        x.serialize(o);
        I y;
        y.load(o);
        x = y;
        x.set_vector(&v);
    }
    vector<uint64_t> want(p.size());
    for (size_t i = 0; i < p.size(); ++i) want[p[i]] = i;
    eq((uint64_t)x.size(), p.size(), "size");
    size_t step = ts > 100 and p.size() > 1000 ? 7 : 1;
    for (size_t i = 0; i < p.size(); i += step) if (x[i] != want[i]) fail("inverse of " + str(i) + ": got " + str(x[i]) + " want " + str(want[i]));
    if (p.size() <= 300) {
        vector<uint64_t> got(x.begin(), x.end());
        if (got != want) fail("iteration");
    }
}
#define INV(name, t, ...) TARGET(name, 150) { inv<inv_perm_support<t, ##__VA_ARGS__>>(s, c, t); }
INV("inv_perm_1", 1)
INV("inv_perm_2", 2)
INV("inv_perm_8", 8)
INV("inv_perm_32", 32)
INV("inv_perm_3_sd", 3, sd_vector<>, sd_vector<>::rank_1_type)
INV("inv_perm_5_rrr", 5, rrr_vector<15>, rrr_vector<15>::rank_1_type)
INV("inv_perm_1000000", 1000000)

template<uint8_t D> void nnd(Src& s, Ctx& c)
{
    auto in = bvgen::make(s, s.chance(1, 8) ? 20000 : 2000);
    const auto& v = in.b;
    size_t n = v.size();
    vector<uint64_t> pos;
    for (size_t i = 0; i < n; ++i) if (v[i]) pos.push_back(i);
    c.nt(pos.size() > 1 and pos.size() < n);
    c.describe([&]() {
        return gen::bitstr(v);
    });
    nearest_neighbour_dictionary<D> d(in.bv);
    if (s.chance(1, 4)) {
        std::stringstream o;
        d.serialize(o);
        nearest_neighbour_dictionary<D> e;
        e.load(o);
        d.swap(e);
    }
    eq((uint64_t)d.size(), n, "size");
    eq((uint64_t)d.ones(), pos.size(), "ones");
    size_t rank = 0, step = n > 3000 ? 1 + n / 3000 : 1, k = 0;
    for (size_t i = 0; i <= n; ++i) {
        while (k < pos.size() and pos[k] < i) ++k;
        rank = k;
        if (i % step and !(i < n and v[i]) and i != n) continue;
        if (d.rank(i) != rank) fail("rank(" + str(i) + "): got " + str(d.rank(i)) + " want " + str(rank));
        if (i == n) break;
        if (rank < pos.size() and d.next(i) != pos[rank]) fail("next(" + str(i) + "): got " + str(d.next(i)) + " want " + str(pos[rank]));
        size_t r1 = rank + v[i];
        if (r1 and d.prev(i) != pos[r1 - 1]) fail("prev(" + str(i) + "): got " + str(d.prev(i)) + " want " + str(pos[r1 - 1]));
    }
    for (size_t i = 0; i < pos.size(); ++i) if (d.select(i + 1) != pos[i]) fail("select(" + str(i + 1) + "): got " + str(d.select(i + 1)) + " want " + str(pos[i]));
}
TARGET("nnd_1", 120) { nnd<1>(s, c); }
TARGET("nnd_2", 120) { nnd<2>(s, c); }
TARGET("nnd_7", 120) { nnd<7>(s, c); }
TARGET("nnd_30", 200) { nnd<30>(s, c); }
TARGET("nnd_64", 120) { nnd<64>(s, c); }
TARGET("nnd_255", 120) { nnd<255>(s, c); }
#else
// The dynamic dictionary under a history of updates, against an ordered set.
TARGET("dynamic", 900)
{
    size_t n;
    switch (s.pick({4, 4, 2, 1})) {
        case 0: n = s.len(400); break;
        case 1: {
            static const uint64_t pw[] = {64, 4096, 262144, 16777216};
            uint64_t b = pw[s.pick({6, 6, 3, s.chance(1, 12) ? 1u : 0u})];
            if (s.b()) b *= 1 + s.u(5);
            n = b + s.u(130) - 65;
            c.label("size near a power of 64");
            break;
        }
        case 2: n = s.u(20000); break;
        default: n = s.u(700000);
    }
    typedef nn_dict_dynamic D;
    struct M {
        D d;
        size_t n;
        std::set<uint64_t> set;
    };
    size_t n2 = s.chance(1, 4) ? s.len(5000) : n;
    M m[2] = {{D(n), n, {}}, {D(n2), n2, {}}};
    size_t ops = s.len(60);
    c.describe([&]() {
        return "sizes " + str(n) + " and " + str(n2) + ", " + str(ops) + " operations";
    });
    Rng r(s.seed());
    size_t ups = 0;
    auto where = [&](M& x) -> uint64_t {
        if (!x.set.empty() and r.chance(2, 3)) {
            auto it = x.set.lower_bound(r.below(x.n));
            if (it == x.set.end()) --it;
            uint64_t p = *it;
            if (r.chance(1, 2)) return p;
            uint64_t d = r.chance(1, 2) ? r.below(3) : 64 * (1 + r.below(2)) + r.below(3) - 1;
            return r.chance(1, 2) ? std::min<uint64_t>(x.n - 1, p + d) : p - std::min(p, d);
        }
        return r.chance(1, 4) ? (r.chance(1, 2) ? r.below(std::min<size_t>(x.n, 3)) : x.n - 1 - r.below(std::min<size_t>(x.n, 3)))
               : r.chance(1, 3) ? std::min<uint64_t>(x.n - 1, r.below(x.n) / 64 * 64 + 63 * r.below(2)) : r.below(x.n);
    };
    auto query = [&](M& x, uint64_t q) {
        auto it = x.set.lower_bound(q);
        uint64_t next = it == x.set.end() ? x.n : *it;
        auto jt = x.set.upper_bound(q);
        uint64_t prev = jt == x.set.begin() ? x.n : *--jt;
        if (x.d.next(q) != next) fail("next(" + str(q) + "): got " + str(x.d.next(q)) + " want " + str(next));
        if (x.d.prev(q) != prev) fail("prev(" + str(q) + "): got " + str(x.d.prev(q)) + " want " + str(prev));
        const D& cd = x.d;
        bool in = x.set.count(q);
        if (cd[q] != in or (bool)x.d[q] != in) fail("membership of " + str(q));
    };
    for (size_t o = 0; o < ops; ++o) {
        M& x = m[s.chance(1, 5)], &y = m[&x == m];
        size_t op = s.pick({5, 4, 2, 1, 1, 1, 1, 1, 1});
        if (!x.n and op < 4) continue;
        size_t k = r.below(12) + 1;
        switch (op) {
            case 0: // insertions near present elements, at the ends, anywhere
                for (; k; --k, ++ups) {
                    uint64_t p = where(x);
                    x.d[p] = 1;
                    x.set.insert(p);
                    if (r.chance(1, 3)) query(x, p);
                }
                break;
            case 1:
                for (; k; --k, ++ups) {
                    uint64_t p = where(x);
                    x.d[p] = 0;
                    x.set.erase(p);
                    if (r.chance(1, 3)) query(x, p);
                }
                break;
            case 2: { // a run
                uint64_t p = where(x), l = std::min<uint64_t>(1 + r.below(200), x.n - p);
                bool on = r.chance(3, 5);
                for (uint64_t i = p; i < p + l; ++i, ++ups) {
                    x.d[i] = on;
                    if (on) x.set.insert(i);
                    else x.set.erase(i);
                }
                break;
            }
            case 3: { // assignment and comparison of elements
                uint64_t a = where(x), b = where(x);
                req((x.d[a] == x.d[b]) == (x.set.count(a) == x.set.count(b)), "== of elements");
                req((x.d[a] < x.d[b]) == (x.set.count(a) < x.set.count(b)), "< of elements");
                x.d[a] = x.d[b];
                if (x.set.count(b)) x.set.insert(a);
                else x.set.erase(a);
                break;
            }
            case 4:
                util::set_zero_bits(x.d);
                x.set.clear();
                break;
            case 5:
                y = x;
                break;
            case 6:
                x.d.swap(y.d);
                std::swap(x.n, y.n);
                x.set.swap(y.set);
                break;
            case 7: {
                if (!x.n) break;
                std::stringstream st;
                x.d.serialize(st);
                x.d.load(st);
                D z(std::move(x.d));
                x.d = std::move(z);
                break;
            }
            default:
                while (!x.set.empty() and r.chance(9, 10)) {
                    uint64_t p = *x.set.begin();
                    if (r.chance(1, 2)) p = *x.set.rbegin();
                    x.d[p] = 0;
                    x.set.erase(p);
                    query(x, r.chance(1, 2) ? p : where(x));
                }
        }
        eq((uint64_t)x.d.size(), x.n, "size");
        if (x.n) {
            for (int q = 0; q < 6; ++q) query(x, where(x));
            query(x, 0);
            query(x, x.n - 1);
        }
        if (y.n) query(y, where(y));
    }
    for (M& x : m) {
        if (!x.n) continue;
        if (x.n <= 400) for (uint64_t q = 0; q < x.n; ++q) query(x, q);
        // iteration over all elements, both ways
        vector<uint64_t> got;
        for (uint64_t q = x.d.next(0); q < x.n; q = q + 1 < x.n ? x.d.next(q + 1) : x.n) got.push_back(q);
        if (got != vector<uint64_t>(x.set.begin(), x.set.end())) fail("forward iteration");
        got.clear();
        for (uint64_t q = x.d.prev(x.n - 1); q < x.n; q = q ? x.d.prev(q - 1) : x.n) got.push_back(q);
        if (got != vector<uint64_t>(x.set.rbegin(), x.set.rend())) fail("backward iteration");
    }
    c.nt(ups > 10 and m[0].n > 64);
}
#endif
