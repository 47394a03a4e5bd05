// C23: the k2-tree answers adjacency queries like the matrix.
#include "pbt.hpp"
#include "gen.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/vectors.hpp>
#include <sdsl/k2_tree.hpp>
#include <set>
#include <sstream>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;
typedef std::pair<uint64_t, uint64_t> Edge;

static uint64_t ipow(uint64_t k, unsigned e)
{
    uint64_t r = 1;
    while (e--) r *= k;
    return r;
}
struct Graph {
    uint64_t n = 1;             // vertices
    vector<Edge> list;          // in insertion order, with repetitions
    std::set<Edge> set;
};
// `small`: the matrix is going to be written out
static Graph graph(Src& s, Ctx& c, unsigned k, bool small)
{
    Graph g;
    size_t shape = s.u(6);
    // number of vertices: anything, or around a power of k
    double lim = small ? 45 : 1e18;
    unsigned maxe = 0;
    for (double x = k; x <= lim; x *= k) ++maxe;
    if (s.chance(1, 2)) {
        unsigned e = s.u(maxe);
        g.n = ipow(k, e);
        int64_t d = (int64_t)s.u(4) - 2;
        if (d >= 0 or g.n > (uint64_t)-d) g.n += d;
        c.label("vertices near a power of k");
    } else if (small or s.chance(1, 2)) g.n = 1 + s.u(44);
    else {
        unsigned b = 1 + s.u(s.chance(1, 3) ? 57 : 13);
        g.n = (1ULL << b) + s.u((1ULL << b) - 1);
    }
    if (g.n > (1ULL << 53)) c.label("more than 2^53 vertices");
    size_t m = s.chance(1, 10) ? s.u(k > 16 ? 100 : 3000) : s.len(k > 16 ? 40 : 200);
    if (small) m = s.b() ? s.u(g.n * g.n * 2) : s.len(60);
    Rng r(s.seed());
    uint64_t line = r.below(g.n), c1 = r.below(g.n), c2 = r.below(g.n);
    static const char* names[] = {"uniform", "diagonal", "row", "column", "borders", "clusters", "full block"};
    c.label(names[shape]);
    uint64_t edge = 1 + r.below(20);
    for (size_t i = 0; i < m; ++i) {
        uint64_t x, y;
        switch (shape) {
            case 0: x = r.below(g.n); y = r.below(g.n); break;
            case 1: x = y = r.below(g.n); break;
            case 2: x = line; y = r.below(g.n); break;
            case 3: x = r.below(g.n); y = line; break;
            case 4: x = r.chance(1, 2) ? 0 : g.n - 1; y = r.chance(1, 2) ? g.n - 1 - r.below(std::min<uint64_t>(3, g.n)) : r.below(std::min<uint64_t>(3, g.n)); if (r.chance(1, 2)) std::swap(x, y); break;
            case 5: x = (c1 + r.below(5)) % g.n; y = (c2 + r.below(5)) % g.n; break;
            default: x = (i % edge) % g.n; y = (i / edge) % g.n;
        }
        g.list.push_back({x, y});
        if (r.chance(1, 15)) g.list.push_back({x, y});
        g.set.insert({x, y});
    }
    return g;
}
static string show(const Graph& g)
{
    string t = str(g.n) + " vertices, edges";
    for (size_t i = 0; i < g.list.size() and i < 60; ++i) t += " " + str(g.list[i].first) + ">" + str(g.list[i].second);
    if (g.list.size() > 60) t += " ... (" + str(g.list.size()) + ")";
    return t;
}
static string show(const vector<Edge>& v)
{
    string t;
    for (size_t i = 0; i < v.size() and i < 20; ++i) t += " " + str(v[i].first) + ">" + str(v[i].second);
    return t + " (" + str(v.size()) + ")";
}

template<class K, unsigned k> void run(Src& s, Ctx& c)
{
    int route = s.u(3);
    Graph g = graph(s, c, k, route == 0);
    if (route and g.list.empty()) { // an edge list must not be empty
        g.list.push_back({g.n - 1, 0});
        g.set.insert({g.n - 1, 0});
    }
    bool implicit = false;
    c.nt(g.set.size() > 1 and g.n > 2);
    c.describe([&]() {
        return show(g) + " route " + str(route);
    });
    K t;
    if (route == 0) {
        vector<vector<int>> m(g.n, vector<int>(g.n, 0));
        for (auto& e : g.set) m[e.first][e.second] = 1;
        K t2(m);
        t.swap(t2);
        c.label(g.set.empty() ? "empty matrix" : "from matrix");
    } else if (route == 1) {
        vector<std::tuple<uint64_t, uint64_t>> e;
        for (auto& x : g.list) e.emplace_back(x.first, x.second);
        K t2(e, g.n);
        t.swap(t2);
        c.label("from edges");
    } else {
        string f = route == 2 ? scratch() + "k2tree" : string("@c23");
        int_vector<> x(g.list.size(), 0, 64), y(g.list.size(), 0, 64);
        for (size_t i = 0; i < g.list.size(); ++i) x[i] = g.list[i].first, y[i] = g.list[i].second;
        if (s.b()) util::bit_compress(x);
        if (s.b()) util::bit_compress(y);
        store_to_file(x, f + ".x");
        store_to_file(y, f + ".y");
        implicit = s.b();
        K t2(f, implicit ? 0 : g.n);
        t.swap(t2);
        sdsl::remove(f + ".x");
        sdsl::remove(f + ".y");
        c.label(implicit ? "from files, number of vertices implied" : "from files");
        if (implicit) {
            uint64_t mx = 0;
            for (auto& e : g.list) mx = std::max(mx, std::max(e.first, e.second));
            g.n = mx + 1;
        }
    }
    if (s.chance(1, 4)) {
        std::stringstream o;
        t.serialize(o);
        K t2;
        t2.load(o);
        req(t == t2, "loaded tree is equal");
        t.swap(t2);
    }
    Rng r(s.seed());
    auto pick = [&](bool second) {
        if (g.list.empty() or r.chance(1, 4)) return r.below(g.n);
        auto& e = g.list[r.below(g.list.size())];
        uint64_t z = second ? e.second : e.first;
        if (r.chance(1, 3)) {
            uint64_t d = r.below(3);
            z = r.chance(1, 2) ? std::min(g.n - 1, z + d) : z - std::min(z, d);
        }
        return z;
    };
    auto adj = [&](uint64_t i, uint64_t j) {
        bool want = g.set.count({i, j});
        if (t.adj(i, j) != want) fail("adj(" + str(i) + "," + str(j) + "): want " + str((uint64_t)want));
    };
    auto nei = [&](uint64_t i) {
        vector<uint64_t> want, rev;
        for (auto it = g.set.lower_bound({i, 0}); it != g.set.end() and it->first == i; ++it) want.push_back(it->second);
        auto got = t.neigh(i);
        std::sort(got.begin(), got.end());
        if (got != want) fail("neigh(" + str(i) + "): got " + vec(got, 20) + " want " + vec(want, 20));
        for (auto& e : g.set) if (e.second == i) rev.push_back(e.first);
        got = t.reverse_neigh(i);
        std::sort(got.begin(), got.end());
        if (got != rev) fail("reverse_neigh(" + str(i) + "): got " + vec(got, 20) + " want " + vec(rev, 20));
    };
    if (g.n <= 20) {
        for (uint64_t i = 0; i < g.n; ++i) {
            for (uint64_t j = 0; j < g.n; ++j) adj(i, j);
            nei(i);
        }
    }
    for (size_t i = 0; i < g.list.size() and i < 300; ++i) adj(g.list[i].first, g.list[i].second);
    for (int q = 0; q < 100; ++q) adj(pick(0), pick(1));
    for (int q = 0; q < 20; ++q) nei(pick(q & 1));
    for (int q = 0; q < 30; ++q) {
        uint64_t r1 = pick(0), r2 = pick(0), c1 = pick(1), c2 = pick(1);
        if (r.chance(1, 10)) r1 = 0, r2 = g.n - 1;
        if (r.chance(1, 10)) c1 = 0, c2 = g.n - 1;
        if (r.chance(1, 10)) c1 = c2;
        if (r.chance(1, 10)) r1 = r2;
        if (r1 > r2) std::swap(r1, r2);
        if (c1 > c2) std::swap(c1, c2);
        // the search visits the whole rectangle of the top level: bounded by k per level
        vector<Edge> want;
        for (auto& e : g.set) if (e.first >= r1 and e.first <= r2 and e.second >= c1 and e.second <= c2) want.push_back(e);
        auto got = t.range(r1, r2, c1, c2);
        std::sort(got.begin(), got.end());
        if (got != want) fail("range rows " + str(r1) + ".." + str(r2) + " columns " + str(c1) + ".." + str(c2) + ": got" + show(got) + " want" + show(want));
    }
}
#define K2(name, k, ...) TARGET(name, 130) { run<k2_tree<k, ##__VA_ARGS__>, k>(s, c); }
#if PART == 0
K2("k2", 2)
K2("k3", 3)
K2("k5_rrr", 5, rrr_vector<63>)
K2("k8", 8)
K2("k16_sd", 16, sd_vector<>)
#else
K2("k2_il", 2, bit_vector_il<>)
K2("k4", 4)
K2("k6", 6, bit_vector, rank_support_v5<>)
K2("k7", 7)
K2("k10_hyb", 10, hyb_vector<>)
K2("k255", 255)
#endif
