// C26: LOUDS trees keep the shape of the source tree.
#include "pbt.hpp"
#include "gen.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/louds_tree.hpp>
#include "textgen.hpp"
#include <queue>
#include <sstream>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

// An ordinal tree, nodes in breadth-first order.
struct Tree {
    typedef size_t node_type;
    typedef size_t size_type;
    vector<vector<size_t>> ch;
    vector<size_t> parent;
    size_t root() const
    {
        return 0;
    }
    size_t size(size_t) const // an upper bound for the number of leaves
    {
        return ch.size();
    }
};
struct Bfs {
    const Tree* t;
    std::queue<size_t> q;
    size_t size() const
    {
        return q.size();
    }
    size_t operator*() const
    {
        return q.front();
    }
    Bfs& operator++()
    {
        size_t v = q.front();
        q.pop();
        for (size_t w : t->ch[v]) q.push(w);
        return *this;
    }
    bool operator!=(const Bfs& o) const
    {
        return q != o.q;
    }
};
// degrees in breadth-first order determine the tree
static Tree from_degrees(const vector<size_t>& deg)
{
    Tree t;
    t.ch.resize(deg.size());
    t.parent.assign(deg.size(), 0);
    size_t next = 1;
    for (size_t v = 0; v < deg.size(); ++v)
        for (size_t i = 0; i < deg[v] and next < deg.size(); ++i) {
            t.ch[v].push_back(next);
            t.parent[next] = v;
            ++next;
        }
    return t;
}
static Tree gen_tree(Src& s, Ctx& c)
{
    size_t mode = s.u(6);
    static const char* names[] = {"random", "path", "star", "caterpillar", "regular", "bursts", "unary chains"};
    c.label(names[mode]);
    size_t n = 1 + (s.chance(1, 6) ? s.u(20000) : s.len(400));
    size_t k = 1 + s.u(70);
    Rng r(s.seed());
    vector<size_t> d;
    size_t open = 1; // nodes announced and not yet visited
    for (size_t v = 0; v < n and open; ++v) {
        size_t g = 0;
        switch (mode) {
            case 0: g = r.below(4); break;
            case 1: g = 1; break;
            case 2: g = v == 0 ? n - 1 : 0; break;
            case 3: g = (v == 0 or open == 1) ? k : 0; break;
            case 4: g = k; break;
            case 5: g = r.chance(1, 10) ? r.below(200) : 0; break;
            default: g = r.chance(1, 8) ? r.below(4) : 1;
        }
        if (open == 1 and g == 0 and r.chance(14, 15)) g = 1 + r.below(3); // keep it growing
        g = std::min(g, n - v - open);
        d.push_back(g);
        open += g;
        --open;
    }
    while (open--) d.push_back(0);
    return from_degrees(d);
}
static string show(const Tree& t)
{
    vector<uint64_t> d;
    for (auto& x : t.ch) d.push_back(x.size());
    return "tree with degrees " + vec(d, 100);
}

template<class L> void compare(const L& l, const Tree& t, Src& s)
{
    typedef typename L::node_type N;
    size_t n = t.ch.size();
    eq((uint64_t)l.nodes(), n, "nodes");
    N root = l.root();
    req(l.parent(root) == root, "parent of the root");
    // node handles collected top-down along the source tree
    vector<N> h;
    h.push_back(root);
    eq((uint64_t)l.id(root), 0, "id of the root");
    for (size_t v = 0; v < n; ++v) {
        N x = h[v];
        if (l.is_leaf(x) != t.ch[v].empty()) fail("is_leaf of node " + str(v));
        if (l.degree(x) != t.ch[v].size()) fail("degree of node " + str(v) + ": got " + str(l.degree(x)) + " want " + str(t.ch[v].size()));
        for (size_t i = 1; i <= t.ch[v].size(); ++i) {
            N y = l.child(x, i);
            if (l.id(y) != t.ch[v][i - 1]) fail("child " + str(i) + " of node " + str(v) + ": id " + str(l.id(y)) + " want " + str(t.ch[v][i - 1]));
            if (l.parent(y) != x) fail("parent of child " + str(i) + " of node " + str(v));
            h.push_back(y);
        }
    }
    eq((uint64_t)h.size(), n, "number of nodes reached");
    Rng r(s.seed());
    for (int w = 0; w < 30; ++w) { // up from anywhere, with handles that are copied and assigned
        size_t v = r.below(n);
        N x = h[v], top = x;
        while (v) {
            x = l.parent(x);
            v = t.parent[v];
            if (l.id(x) != v or x != h[v]) fail("walk to the root: id " + str(l.id(x)) + " want " + str(v));
            if (r.chance(1, 20)) break;
        }
        req(top == h[l.id(top)], "handle survives copying");
    }
}
template<class L> void finish(Src& s, L& l, const Tree& t)
{
    switch (s.pick({3, 1, 1, 1})) {
        case 0: compare(l, t, s); break;
        case 1: {
            L k(l);
            compare(k, t, s);
            break;
        }
        case 2: {
            Tree t2 = from_degrees({2, 0, 0});
            Bfs b{&t2, {}}, e{&t2, {}};
            b.q.push(0);
            L k(t2, b, e);
            k.swap(l);
            compare(k, t, s);
            compare(l, t2, s);
            break;
        }
        default: {
            Tree t2 = from_degrees({1, 0});
            Bfs b{&t2, {}}, e{&t2, {}};
            b.q.push(0);
            L k(t2, b, e);
            std::stringstream st;
            uint64_t w = l.serialize(st);
            eq(w, (uint64_t)st.str().size(), "bytes written");
            k.load(st);
            compare(k, t, s);
        }
    }
}
template<class L> void run(Src& s, Ctx& c)
{
    Tree t = gen_tree(s, c);
    c.nt(t.ch.size() > 3);
    c.describe([&]() {
        return show(t);
    });
    Bfs b{&t, {}}, e{&t, {}};
    b.q.push(0);
    L l(t, b, e);
    finish(s, l, t);
}
#define L(name, ...) TARGET(name, 250) { run<louds_tree<__VA_ARGS__>>(s, c); }
L("plain")
L("scan", bit_vector, select_support_scan<1>, select_support_scan<0>)
L("rrr", rrr_vector<63>)
L("sd", sd_vector<>)
L("il", bit_vector_il<>)

// The tree of a compressed suffix tree: same shape as the suffix tree itself.
template<class Cst> void from_cst(Src& s, Ctx& c)
{
    auto t0 = byte_text(s, 300);
    string text(t0.begin(), t0.end());
    if (text.empty()) text = "x";
    c.nt(text.size() > 3);
    c.describe([&]() {
        return "text " + pbt::quoted(text);
    });
    Cst cst;
    construct_im(cst, text, 1);
    typedef cst_bfs_iterator<Cst> It;
    Tree t;
    vector<typename Cst::node_type> at;
    at.push_back(cst.root());
    t.parent.push_back(0);
    for (size_t v = 0; v < at.size(); ++v) {
        auto x = at[v];
        t.ch.push_back({});
        if (cst.is_leaf(x)) continue;
        for (auto y : cst.children(x)) {
            t.ch[v].push_back(at.size());
            t.parent.push_back(v);
            at.push_back(y);
        }
    }
    It b(&cst, cst.root()), e(&cst, cst.root(), true, true);
    louds_tree<> l(cst, b, e);
    finish(s, l, t);
}
TARGET("cst_sct3", 80) { from_cst<cst_sct3<>>(s, c); }
TARGET("cst_sada", 80) { from_cst<cst_sada<>>(s, c); }
