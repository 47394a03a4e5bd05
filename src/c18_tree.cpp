// C18: compressed suffix trees have the topology of the suffix tree.
#include "cstcommon.hpp"
#include <queue>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

// only for trees that number their nodes and offer subtree iterators
template<class Cst> typename std::enable_if<!is_fully<Cst>::value>::type extra(Src& s, Cst& cst, const TreeModel& t, const vector<size_t>& nodes, const vector<typename Cst::node_type>& w)
{
    vector<char> used(t.v.size(), 0);
    for (size_t k = 0; k < nodes.size(); ++k) {
        uint64_t id = cst.id(w[k]);
        if (id >= t.v.size()) req(false, "id out of range", id, t.v.size());
        if (used[id]++) req(false, "two nodes with the same id", id, nodes[k]);
        same_node(cst, t, cst.inv_id(id), nodes[k], "inv_id(id(v))", id);
    }
    // subtrees, forward
    for (int r = 0; r < 6; ++r) {
        size_t k = s.u(nodes.size() - 1), x = nodes[k];
        if (t.m.n == 1) break;
        vector<std::pair<size_t, int>> want;
        std::function<void(size_t)> rec = [&](size_t y) {
            want.push_back({y, 1});
            for (auto z : t.v[y].ch) rec(z);
            if (t.v[y].ch.size()) want.push_back({y, 2});
        };
        if (t.v[x].rb - t.v[x].lb > 400) continue;
        rec(x);
        auto it = cst.begin(w[k]), end = cst.end(w[k]);
        for (size_t i = 0; i < want.size(); ++i, ++it) {
            req(it != end, "subtree traversal ended early");
            same_node(cst, t, *it, want[i].first, "subtree traversal", i);
            eq((uint64_t)it.visit(), (uint64_t)want[i].second, "visit in the subtree traversal", i);
        }
        req(it == end, "subtree traversal did not end");
    }
    // bottom up
    if (t.m.n > 1) {
        vector<size_t> post;
        vector<std::pair<size_t, size_t>> st{{0, 0}};
        while (st.size()) {
            auto& f = st.back();
            if (f.second < t.v[f.first].ch.size()) st.push_back({t.v[f.first].ch[f.second++], 0});
            else {
                post.push_back(f.first);
                st.pop_back();
            }
        }
        auto it = cst.begin_bottom_up(), end = cst.end_bottom_up();
        for (size_t i = 0; i < post.size(); ++i, ++it) {
            req(it != end, "bottom-up traversal ended early");
            same_node(cst, t, *it, post[i], "bottom-up traversal", i);
        }
        req(it == end, "bottom-up traversal did not end");
    }
}
template<class Cst> typename std::enable_if<is_fully<Cst>::value>::type extra(Src& s, Cst& cst, const TreeModel& t, const vector<size_t>& nodes, const vector<typename Cst::node_type>& w)
{
    for (int k = 0; k < 60; ++k) {
        size_t a = s.u(nodes.size() - 1), b = s.u(nodes.size() - 1);
        auto& x = t.v[nodes[a]];
        auto& y = t.v[nodes[b]];
        eq((uint64_t)cst.ancestor(w[a], w[b]), (uint64_t)(x.lb <= y.lb and y.rb <= x.rb), "ancestor", nodes[a], nodes[b]);
    }
}
template<class Cst> void node_ok(const Cst& cst, const TreeModel& t, const typename Cst::node_type& w, size_t x)
{
    auto& n = t.v[x];
    auto root = cst.root();
    same_node(cst, t, w, x, "interval");
    eq((uint64_t)cst.size(w), n.rb + 1 - n.lb, "size(v)", x);
    eq((uint64_t)cst.is_leaf(w), (uint64_t)n.leaf(), "is_leaf", x);
    eq((uint64_t)(w == root), (uint64_t)(x == 0), "v == root()", x);
    same_node(cst, t, cst.parent(w), n.parent, "parent", x);
    same_node(cst, t, cst.leftmost_leaf(w), t.leaf[n.lb], "leftmost_leaf", x);
    same_node(cst, t, cst.rightmost_leaf(w), t.leaf[n.rb], "rightmost_leaf", x);
    eq((uint64_t)cst.degree(w), (uint64_t)n.ch.size(), "degree", x);
    eq((uint64_t)cst.node_depth(w), (uint64_t)n.level, "node_depth", x);
    req(cst.node(n.lb, n.rb) == w, "node(lb,rb)");
    auto sib = cst.sibling(w);
    auto& p = t.v[n.parent];
    if (x and n.index + 1 < p.ch.size()) same_node(cst, t, sib, p.ch[n.index + 1], "sibling", x);
    else req(sib == root, "sibling of a last child is not root()");
}
template<class Cst> void children_ok(const Cst& cst, const TreeModel& t, const typename Cst::node_type& w, size_t x)
{
    auto& n = t.v[x];
    size_t deg = n.ch.size();
    for (size_t i = 1; i <= deg; i += deg > 40 and i > 10 and i + 10 < deg ? 7 : 1) {
        auto c = cst.select_child(w, i);
        same_node(cst, t, c, n.ch[i - 1], "select_child", x, i);
        req(cst.parent(c) == w, "parent of a child");
    }
    for (size_t i = deg + 1; i <= deg + 3; ++i) req(cst.select_child(w, i) == cst.root(), "select_child behind the last child is not root()");
    auto ch = cst.children(w);
    eq((uint64_t)ch.size(), (uint64_t)deg, "children(v).size()", x);
    if (deg) {
        same_node(cst, t, ch[deg - 1], n.ch[deg - 1], "children(v)[last]", x);
        size_t i = 0;
        for (const auto& c : ch) {
            req(i < deg, "too many children iterated");
            same_node(cst, t, c, n.ch[i], "iterating children", x, i);
            ++i;
        }
        eq((uint64_t)i, (uint64_t)deg, "number of iterated children", x);
    } else {
        for (const auto& c : ch) {
            (void)c;
            fail("a leaf has children");
        }
    }
}
template<class Cst> void run(Src& s, Ctx& c)
{
    bool slow = is_fully<Cst>::value;
    auto text = index_text<Cst>(s, c, s.chance(1, 6) ? (slow ? 600 : 3000) : 250);
    TreeModel t;
    t.build(text);
    Cst cst;
    index_build(cst, text);
    size_t n = t.m.n;
    if (t.v.size() > n + 1) c.nt(true);
    c.label(n == 1 ? "single node" : t.v.size() == n + 1 ? "no inner nodes but the root" : t.v.size() > n + n / 2 ? "many inner nodes" : "few inner nodes");
    eq((uint64_t)cst.size(), (uint64_t)n, "size");
    eq((uint64_t)cst.nodes(), (uint64_t)t.v.size(), "nodes()");
    auto root = cst.root();
    same_node(cst, t, root, 0, "root");
    // the nodes, as the depth first traversal delivers them
    vector<typename Cst::node_type> w;
    if (n > 1) {
        vector<std::pair<size_t, size_t>> st{{0, 0}};
        auto it = cst.begin(), end = cst.end();
        size_t steps = 0;
        while (st.size()) {
            auto& f = st.back();
            size_t x = f.first;
            bool first = f.second == 0;
            if (first or f.second == t.v[x].ch.size()) {
                req(it != end, "depth first traversal ended early");
                auto v = *it;
                same_node(cst, t, v, x, "depth first traversal", steps);
                eq((uint64_t)it.visit(), (uint64_t)(first ? 1 : 2), "visit()", steps);
                if (first) w.push_back(v);
                ++it;
                ++steps;
            }
            if (f.second < t.v[x].ch.size()) st.push_back({t.v[x].ch[f.second++], 0});
            else st.pop_back();
        }
        req(it == end, "depth first traversal did not end");
        eq((uint64_t)w.size(), (uint64_t)t.v.size(), "nodes visited by the traversal");
        // skipping subtrees
        Rng r(s.seed());
        auto jt = cst.begin();
        vector<std::pair<size_t, int>> want;
        vector<char> skip(t.v.size(), 0);
        for (auto& x : skip) x = r.chance(1, 4);
        st = {{0, 0}};
        while (st.size()) {
            auto& f = st.back();
            size_t x = f.first;
            if (f.second == 0) want.push_back({x, 1});
            if (f.second == 0 and skip[x] and t.v[x].ch.size()) {
                st.pop_back(); // the second visit is skipped too
                continue;
            }
            if (f.second < t.v[x].ch.size()) st.push_back({t.v[x].ch[f.second++], 0});
            else {
                if (t.v[x].ch.size()) want.push_back({x, 2});
                st.pop_back();
            }
        }
        size_t copy_at = s.b() ? s.u(want.size() - 1) : ~(size_t)0;
        for (size_t i = 0; i < want.size(); ++i) {
            req(jt != end, "traversal with skipped subtrees ended early");
            same_node(cst, t, *jt, want[i].first, "traversal with skipped subtrees", i);
            eq((uint64_t)jt.visit(), (uint64_t)want[i].second, "visit() with skipped subtrees", i);
            if (i == copy_at) {
                auto kt = jt; // a copy advances independently of its original
                for (size_t k = i; k < want.size() and k < i + 40; ++k) {
                    same_node(cst, t, *kt, want[k].first, "copy of a traversal iterator", i, k);
                    if (want[k].second == 1 and t.v[want[k].first].ch.size() and skip[want[k].first]) kt.skip_subtree();
                    ++kt;
                }
                jt = i % 2 ? jt : cst.begin();
                if (i % 2 == 0) { // assigned: starts again
                    for (size_t k = 0; k < want.size() and k < 40; ++k) {
                        same_node(cst, t, *jt, want[k].first, "assigned traversal iterator", k);
                        if (want[k].second == 1 and t.v[want[k].first].ch.size() and skip[want[k].first]) jt.skip_subtree();
                        ++jt;
                    }
                    break;
                }
            }
            if (want[i].second == 1 and t.v[want[i].first].ch.size() and skip[want[i].first]) jt.skip_subtree();
            ++jt;
        }
        if (copy_at >= want.size() or copy_at % 2) req(jt == end, "traversal with skipped subtrees did not end");
    } else {
        w.push_back(root);
    }
    { // breadth first
        cst_bfs_iterator<Cst> it(&cst, cst.root()), end(&cst, cst.root(), true, true);
        std::queue<size_t> q;
        q.push(0);
        if (n > 1) {
            size_t i = 0;
            while (q.size()) {
                size_t x = q.front();
                q.pop();
                for (auto y : t.v[x].ch) q.push(y);
                req(it != end, "breadth first traversal ended early");
                same_node(cst, t, *it, x, "breadth first traversal", i++);
                ++it;
            }
            req(it == end, "breadth first traversal did not end");
        }
    }
    // all nodes of small trees, a sample otherwise
    vector<size_t> nodes;
    size_t limit = slow ? 120 : 500;
    if (t.v.size() <= limit) for (size_t i = 0; i < t.v.size(); ++i) nodes.push_back(i);
    else {
        vector<char> in(t.v.size(), 0);
        Rng r(s.seed());
        in[0] = 1;
        for (size_t i = 0; i < limit; ++i) in[r.below(t.v.size())] = 1;
        for (size_t i = 0; i < t.v.size(); ++i) if (in[i]) nodes.push_back(i);
    }
    vector<typename Cst::node_type> wn;
    for (auto x : nodes) wn.push_back(w[x]);
    for (size_t k = 0; k < nodes.size(); ++k) {
        node_ok(cst, t, wn[k], nodes[k]);
        children_ok(cst, t, wn[k], nodes[k]);
    }
    Rng r(s.seed());
    for (size_t k = 0; k < (slow ? 60 : 300); ++k) {
        size_t i = r.below(n);
        same_node(cst, t, cst.select_leaf(i + 1), t.leaf[i], "select_leaf", i + 1);
        size_t a = r.below(nodes.size()), b = r.chance(1, 3) ? std::min(nodes.size() - 1, a + r.below(8)) : r.below(nodes.size());
        same_node(cst, t, cst.lca(wn[a], wn[b]), t.lca(nodes[a], nodes[b]), "lca", nodes[a], nodes[b]);
    }
    extra(s, cst, t, nodes, wn);
    // walks: every result is used as the argument of the next operation
    for (int k = 0; k < 4; ++k) {
        size_t x = 0;
        auto v = root;
        for (int step = 0; step < 25; ++step) {
            size_t y = r.below(t.v.size());
            switch (r.below(8)) {
                case 0: v = cst.parent(v), x = t.v[x].parent; break;
                case 1:
                case 2:
                case 3:
                    if (t.v[x].ch.size()) {
                        size_t i = r.below(t.v[x].ch.size());
                        v = cst.select_child(v, i + 1), x = t.v[x].ch[i];
                    }
                    break;
                case 4: {
                    auto sib = cst.sibling(v);
                    if (sib != root) v = sib, x = t.v[t.v[x].parent].ch[t.v[x].index + 1];
                    break;
                }
                case 5: v = cst.lca(v, w[y]), x = t.lca(x, y); break;
                case 6: v = cst.node(t.v[y].lb, t.v[y].rb), x = y; break;
                default:
                    if (r.chance(1, 2)) v = cst.leftmost_leaf(v), x = t.leaf[t.v[x].lb];
                    else v = cst.rightmost_leaf(v), x = t.leaf[t.v[x].rb];
            }
            node_ok(cst, t, v, x);
        }
        children_ok(cst, t, v, x);
    }
}
#define X(name, cnt, type) TARGET(#name, cnt) { using namespace cst_types; run<UNPAREN type>(s, c); }
CST_LIST(X)
