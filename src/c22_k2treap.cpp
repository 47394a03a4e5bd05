// C22: the k2-treap answers weighted range queries exactly.
#include "pbt.hpp"
#include "gen.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/k2_treap.hpp>
#include <set>
#include <sstream>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;
typedef std::array<uint64_t, 3> P3;

static vector<P3> points(Src& s, Ctx& c, uint64_t wmax)
{
    size_t mode = s.u(7);
    size_t n = s.chance(1, 10) ? s.u(4000) : s.len(400);
    Rng r(s.seed());
    unsigned bits = 1 + s.u(s.chance(1, 4) ? 58 : 14);
    uint64_t side = s.b() ? 1ULL << bits : 1 + s.u((1ULL << bits) - 1);
    static const char* names[] = {"uniform", "clusters", "diagonal", "row", "column", "full grid", "corners", "tiny"};
    c.label(names[mode]);
    if (bits > 32) c.label("coordinates above 32 bits");
    std::set<std::pair<uint64_t, uint64_t>> seen;
    vector<P3> v;
    uint64_t cx[4], cy[4];
    for (int i = 0; i < 4; ++i) cx[i] = r.below(side), cy[i] = r.below(side);
    uint64_t edge = 1 + s.u(20), line = r.below(side);
    size_t ties = s.u(3);
    if (mode == 5) n = std::min<size_t>(n, edge * edge);
    for (size_t i = 0; i < n; ++i) {
        uint64_t x = 0, y = 0;
        switch (mode) {
            case 0: x = r.below(side); y = r.below(side); break;
            case 1: {
                int k = r.below(4);
                x = cx[k] + r.below(6);
                y = cy[k] + r.below(6);
                break;
            }
            case 2: x = y = r.below(side); break;
            case 3: x = line; y = r.below(side); break;
            case 4: x = r.below(side); y = line; break;
            case 5: x = i % edge; y = i / edge; break;
            case 6: x = r.chance(1, 2) ? r.below(3) : side - 1 - r.below(std::min<uint64_t>(side, 3)); y = r.chance(1, 2) ? r.below(3) : side - 1 - r.below(std::min<uint64_t>(side, 3)); break;
            default: x = r.below(3); y = r.below(2);
        }
        if (!seen.insert({x, y}).second) continue;
        uint64_t w = ties == 0 ? r.below(3) : ties == 1 ? r.below(100) : ties == 2 ? r.next() >> r.below(64) : i;
        v.push_back(P3{{x, y, std::min(w, wmax)}});
    }
    return v;
}
static string show(const vector<P3>& v)
{
    string t = str(v.size()) + " points";
    for (size_t i = 0; i < v.size() and i < 60; ++i) t += " (" + str(v[i][0]) + "," + str(v[i][1]) + ":" + str(v[i][2]) + ")";
    return t;
}
typedef k2_treap_ns::point_type pt;
static P3 as_point(const std::pair<pt, uint64_t>& x)
{
    return P3{{real(x.first), imag(x.first), x.second}};
}

template<class K> void run(Src& s, Ctx& c)
{
    int route = s.u(3);
    auto v = points(s, c, route == 0 ? ~0ULL : (1ULL << 60) - 1);
    c.nt(v.size() > 2);
    c.describe([&]() {
        return show(v);
    });
    K t;
    if (route == 0) {
        construct_im(t, v);
        c.label("from memory");
    } else if (route == 3) {
        vector<std::tuple<uint64_t, uint64_t, uint64_t>> d;
        for (auto& p : v) d.emplace_back(p[0], p[1], p[2]);
        K t2(d, scratch() + "k2t");
        t.swap(t2);
        c.label("from tuples");
    } else {
        string f = route == 1 ? scratch() + "k2t" : string("@c22_k2t");
        for (int k = 0; k < 3; ++k) {
            int_vector<> iv(v.size(), 0, 64);
            for (size_t i = 0; i < v.size(); ++i) iv[i] = v[i][k];
            if (s.b()) util::bit_compress(iv);
            store_to_file(iv, f + "." + "xyw"[k]);
        }
        construct(t, f);
        for (int k = 0; k < 3; ++k) sdsl::remove(f + "." + "xyw"[k]);
        c.label(route == 1 ? "from files" : "from in-memory files");
    }
    if (s.chance(1, 4)) {
        std::stringstream o;
        t.serialize(o);
        K t2;
        t2.load(o);
        t.swap(t2);
    }
    eq((uint64_t)t.size(), v.size(), "size");
    Rng r(s.seed());
    size_t queries = v.size() > 1000 ? 12 : 40, hits = 0;
    for (size_t q = 0; q < queries; ++q) {
        uint64_t x1, x2, y1, y2;
        auto pick = [&](int k) {
            uint64_t z = v.size() ? v[r.below(v.size())][k] : r.below(5);
            return r.chance(1, 3) ? z : r.chance(1, 2) ? z + r.below(5) : z - r.below(std::min<uint64_t>(z, 4) + 1);
        };
        x1 = pick(0), x2 = pick(0), y1 = pick(1), y2 = pick(1);
        if (r.chance(1, 8)) x1 = 0, x2 = (r.chance(1, 2) ? ~0ULL : 1ULL << 60);
        if (r.chance(1, 8)) y1 = 0, y2 = (r.chance(1, 2) ? ~0ULL : 1ULL << 60);
        if (r.chance(1, 10)) x2 = x1;
        if (r.chance(1, 10)) y2 = y1;
        if (x1 > x2) std::swap(x1, x2);
        if (y1 > y2) std::swap(y1, y2);
        vector<P3> want;
        for (auto& p : v) if (p[0] >= x1 and p[0] <= x2 and p[1] >= y1 and p[1] <= y2) want.push_back(p);
        std::sort(want.begin(), want.end());
        if (want.size()) ++hits;
        auto context = [&]() {
            return " in [" + str(x1) + "," + str(x2) + "]x[" + str(y1) + "," + str(y2) + "]";
        };
        uint64_t cnt = count(t, {x1, y1}, {x2, y2});
        if (cnt != want.size()) fail("count: got " + str(cnt) + " want " + str(want.size()) + context());
        vector<P3> got;
        uint64_t last = ~0ULL;
        auto it = top_k(t, {x1, y1}, {x2, y2});
        while (it) {
            auto p = as_point(*it);
            if (p[2] > last) fail("top_k: weights increase" + context());
            last = p[2];
            got.push_back(p);
            if (got.size() > want.size()) fail("top_k: too many points" + context());
            if (r.chance(1, 4)) {
                auto old = it++;
                if (as_point(*old) != p) fail("top_k: post-increment" + context());
            } else ++it;
        }
        std::sort(got.begin(), got.end());
        if (got != want) fail("top_k: got " + show(got) + " want " + show(want) + context());
        // weights in a range
        uint64_t w1 = v.size() ? v[r.below(v.size())][2] : 1, w2 = v.size() ? v[r.below(v.size())][2] : 7;
        if (r.chance(1, 6)) w1 = 0;
        if (r.chance(1, 6)) w2 = ~0ULL;
        if (r.chance(1, 6)) w2 = w1;
        if (w1 > w2) std::swap(w1, w2);
        vector<P3> sub;
        for (auto& p : want) if (p[2] >= w1 and p[2] <= w2) sub.push_back(p);
        got.clear();
        for (auto jt = range_3d(t, {x1, y1}, {x2, y2}, {w1, w2}); jt; ++jt) {
            got.push_back(as_point(*jt));
            if (got.size() > sub.size()) fail("range_3d: too many points" + context());
        }
        std::sort(got.begin(), got.end());
        if (got != sub) fail("range_3d: got " + show(got) + " want " + show(sub) + context() + " weights " + str(w1) + ".." + str(w2));
    }
    if (hits) c.label("hits");
}
#define K2(name, ...) TARGET(name, 130) { run<__VA_ARGS__>(s, c); }
#if PART == 0
K2("k2", k2_treap<2>)
K2("k2_sd", k2_treap<2, sd_vector<>>)
K2("k3", k2_treap<3>)
K2("k4_rrr", k2_treap<4, rrr_vector<63>>)
K2("k5", k2_treap<5>)
#else
K2("k4", k2_treap<4>)
K2("k8", k2_treap<8>)
K2("k16", k2_treap<16>)
K2("k2_il", k2_treap<2, bit_vector_il<>, rank_support_il<>, dac_vector<2>>)
K2("k2_vlc", k2_treap<2, bit_vector, rank_support_v5<>, vlc_vector<>>)
K2("k7_v5", k2_treap<7, bit_vector, rank_support_v5<>, dac_vector<7>>)
#endif
