// C19: compressed suffix trees have the string semantics of the suffix tree.
#include "cstcommon.hpp"
#include <cmath>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

static void close(double a, double b, const char* what)
{
    if (!(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)))) fail(string(what) + ": got " + std::to_string(a) + " want " + std::to_string(b));
}
// i-fold suffix link of an inner node or a leaf
static size_t sl_model(const TreeModel& t, size_t x, size_t i)
{
    auto& n = t.v[x];
    if (i >= n.depth) return 0;
    size_t a = t.m.isa[t.m.sa[n.lb] + i], b = t.m.isa[t.m.sa[n.rb] + i];
    return t.locus(std::min(a, b), std::max(a, b));
}
template<class Cst> typename std::enable_if<is_sada<Cst>::value>::type sl_i(Src&, Rng& r, const Cst& cst, const TreeModel& t, const typename Cst::node_type& w, size_t x)
{
    uint64_t d = t.v[x].depth;
    if (x and d > 1) {
        uint64_t i = 1 + r.below(d - 1);
        if (r.chance(1, 2)) i = std::min<uint64_t>(d - 1, 1 + r.below(4));
        same_node(cst, t, cst.sl(w, i), sl_model(t, x, i), "sl(v,i)", x, i);
    }
}
template<class Cst> typename std::enable_if<!is_sada<Cst>::value>::type sl_i(Src&, Rng&, const Cst&, const TreeModel&, const typename Cst::node_type&, size_t) {}

template<class Cst> void run(Src& s, Ctx& c)
{
    bool slow = is_fully<Cst>::value;
    auto text = index_text<Cst>(s, c, s.chance(1, 6) ? (slow ? 600 : 3000) : 250);
    TreeModel t;
    t.build(text);
    Cst cst;
    index_build(cst, text);
    auto& m = t.m;
    size_t n = m.n;
    auto root = cst.root();
    if (t.v.size() > n + 1) c.nt(true);
    c.label(n == 1 ? "single node" : t.v.size() == n + 1 ? "no inner nodes but the root" : t.v.size() > n + n / 2 ? "many inner nodes" : "few inner nodes");
    vector<typename Cst::node_type> w(t.v.size());
    vector<uint64_t> syms = m.t;
    std::sort(syms.begin(), syms.end());
    syms.erase(std::unique(syms.begin(), syms.end()), syms.end());
    uint64_t symmax = index_is_byte<Cst>::value ? 255 : syms.back() + 2;
    auto str_eq = [&](const typename Cst::string_type& got, size_t x, const char* what) {
        auto& v = t.v[x];
        uint64_t d = x == 0 ? 0 : v.depth;
        eq((uint64_t)got.size(), d, what, x);
        for (size_t i = 0; i < d; ++i) eq((uint64_t)(typename Cst::char_type)got[i], m.t[m.sa[v.lb] + i], what, x, i);
    };
    // nodes
    vector<size_t> nodes;
    size_t limit = slow ? 120 : 400;
    Rng r(s.seed());
    if (t.v.size() <= limit) for (size_t i = 0; i < t.v.size(); ++i) nodes.push_back(i);
    else {
        vector<char> in(t.v.size(), 0);
        in[0] = 1;
        for (size_t i = 0; i < limit; ++i) in[r.below(t.v.size())] = 1;
        for (size_t i = 0; i < t.v.size(); ++i) if (in[i]) nodes.push_back(i);
    }
    auto wl_ok = [&](const typename Cst::node_type& v, size_t x, uint64_t sym) {
        auto& nd = t.v[x];
        // suffixes sym+label
        size_t cnt = 0, lo = ~(size_t)0, hi = 0;
        for (size_t i = nd.lb; i <= nd.rb; ++i) if (m.bwt[i] == sym) {
                size_t p = m.isa[m.sa[i] - 1];
                ++cnt;
                lo = std::min(lo, p);
                hi = std::max(hi, p);
            }
        auto g = cst.wl(v, sym);
        if (!cnt) {
            req(g == root, "wl of a non-existing Weiner link is not root()", x, sym);
            return (size_t)0;
        }
        size_t y = t.locus(lo, hi);
        same_node(cst, t, g, y, "wl", x, sym);
        return y;
    };
    for (auto x : nodes) {
        auto& nd = t.v[x];
        auto v = cst.node(nd.lb, nd.rb);
        w[x] = v;
        if (n > 1) eq((uint64_t)cst.depth(v), nd.depth, "depth", x);
        if (x) same_node(cst, t, cst.sl(v), sl_model(t, x, 1), "sl", x);
        else req(cst.sl(v) == root, "sl(root)");
        sl_i(s, r, cst, t, v, x);
        // labels
        uint64_t d = x ? nd.depth : 0;
        uint64_t pd = x ? t.v[nd.parent].depth : 0;
        for (uint64_t k = 1; k <= d; k += d > 12 and k > 4 and k + 4 < d ? 1 + r.below(d / 6) : 1) eq((uint64_t)cst.edge(v, k), m.t[m.sa[nd.lb] + k - 1], "edge", x, k);
        if (d > pd) eq((uint64_t)cst.edge(v, pd + 1), m.t[m.sa[nd.lb] + pd], "edge", x, pd + 1);
        if (d <= 60 or r.chance(1, 20)) {
            str_eq(extract(cst, v), x, "extract(cst,v)");
            if (x) {
                typename Cst::string_type buf(d + 1, (typename Cst::string_type::value_type)7);
                eq((uint64_t)extract(cst, v, buf.begin()), d, "length returned by extract(cst,v,iterator)", x);
                for (size_t i = 0; i < d; ++i) eq((uint64_t)(typename Cst::char_type)buf[i], m.t[m.sa[nd.lb] + i], "extract(cst,v,iterator)", x, i);
                eq((uint64_t)(typename Cst::char_type)buf[d], 7, "extract(cst,v,iterator) wrote behind the label", x);
            }
        }
        if (nd.leaf()) eq((uint64_t)cst.sn(v), m.sa[nd.lb], "sn", x);
        // children by character
        if (n > 1) {
            for (size_t i = 0; i < nd.ch.size(); i += nd.ch.size() > 20 ? 1 + r.below(nd.ch.size() / 10) : 1) {
                auto& ch = t.v[nd.ch[i]];
                uint64_t sym = m.t[m.sa[ch.lb] + nd.depth];
                auto g = cst.child(v, sym);
                same_node(cst, t, g, nd.ch[i], "child(v,c)", x, sym);
                req(cst.parent(g) == v, "parent of child(v,c)");
                typename Cst::size_type pos = ~0ULL;
                auto h = cst.child(v, sym, pos);
                same_node(cst, t, h, nd.ch[i], "child(v,c,pos)", x, sym);
                req(pos < n, "char_pos of child(v,c,pos)", x, sym);
                uint64_t p = m.sa[pos];
                req(p >= nd.depth and m.isa[p - nd.depth] >= ch.lb and m.isa[p - nd.depth] <= ch.rb, "char_pos of child(v,c,pos)", x, sym);
            }
            for (int k = 0; k < 3; ++k) { // symbols, mostly without such a child
                uint64_t sym = r.chance(1, 2) ? syms[r.below(syms.size())] : 1 + r.below(symmax);
                size_t y = 0;
                for (auto z : nd.ch) if (m.t[m.sa[t.v[z].lb] + nd.depth] == sym) y = z;
                auto g = cst.child(v, sym);
                if (y) same_node(cst, t, g, y, "child(v,c)", x, sym);
                else req(g == root, "child(v,c) of a non-existing child is not root()", x, sym);
            }
            // Weiner links
            for (int k = 0; k < 3; ++k) {
                uint64_t sym = k ? m.bwt[nd.lb + r.below(nd.rb + 1 - nd.lb)] : r.chance(1, 2) ? syms[r.below(syms.size())] : 1 + r.below(symmax);
                if (sym) wl_ok(v, x, sym);
            }
            double h0 = 0;
            for (auto y : nd.ch) {
                double p = (double)(t.v[y].rb + 1 - t.v[y].lb) / (nd.rb + 1 - nd.lb);
                h0 -= p * std::log2(p);
            }
            close(H0(v, cst), h0, "H0");
        }
    }
    // walks along suffix links, Weiner links and edges, each on the result of the step before
    if (n > 1) for (int k = 0; k < 6; ++k) {
            size_t x = nodes[r.below(nodes.size())];
            auto v = w[x];
            for (int step = 0; step < 25; ++step) {
                switch (r.below(5)) {
                    case 0:
                    case 1:
                        v = cst.sl(v);
                        x = x ? sl_model(t, x, 1) : 0;
                        break;
                    case 2: {
                        uint64_t sym = m.bwt[t.v[x].lb + r.below(t.v[x].rb + 1 - t.v[x].lb)];
                        if (!sym) break;
                        size_t y = wl_ok(v, x, sym);
                        v = cst.wl(v, sym);
                        x = y;
                        break;
                    }
                    case 3:
                        if (t.v[x].ch.size()) {
                            size_t y = t.v[x].ch[r.below(t.v[x].ch.size())];
                            v = cst.child(v, m.t[m.sa[t.v[y].lb] + t.v[x].depth]);
                            x = y;
                        }
                        break;
                    default:
                        v = cst.parent(v);
                        x = t.v[x].parent;
                }
                same_node(cst, t, v, x, "walk", step);
                eq((uint64_t)cst.depth(v), t.v[x].depth, "depth in a walk", step);
                req(cst.parent(v) == cst.node(t.v[t.v[x].parent].lb, t.v[t.v[x].parent].rb), "parent in a walk");
            }
        }
    // empirical entropy of order k
    if (!slow or n < 150) {
        uint64_t k = r.below(std::min<uint64_t>(n, 8)), ctx = 0;
        double hk = 0;
        for (size_t i = 0; i < n;) { // groups of suffixes with a common prefix of length k
            size_t j = i + 1;
            while (j < n and m.lcp[j] >= k) ++j;
            if (n - m.sa[i] >= k) {
                ++ctx;
                for (size_t a = i; a < j;) { // by the following symbol
                    size_t b = a + 1;
                    while (b < j and m.lcp[b] > k) ++b;
                    double p = (double)(b - a) / (j - i);
                    if (j - i > 1) hk -= (j - i) * p * std::log2(p);
                    a = b;
                }
            }
            i = j;
        }
        if (n > 1) {
            auto g = Hk(cst, k);
            close(g.first, hk / n, "Hk");
            eq((uint64_t)g.second, ctx, "number of contexts of Hk", k);
        }
    }
}
#define X(name, cnt, type) TARGET(#name, cnt) { using namespace cst_types; run<UNPAREN type>(s, c); }
CST_LIST(X)
