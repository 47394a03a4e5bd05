// Every serializable structure with a generator and a sample of all its queries, for the properties that hold
// for all of them (serialization, value semantics, reported sizes). VALUES(X) lists them, by PART.
#pragma once
#include "bvgen.hpp"
#include "textgen.hpp"
#include "wtcommon.hpp"
#include <sdsl/vectors.hpp>
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/lcp.hpp>
#include <sdsl/bp_support.hpp>
#include <sdsl/rmq_support.hpp>
#include <sdsl/k2_treap.hpp>
#include <sdsl/k2_tree.hpp>
#include <sdsl/k2_treap_algorithm.hpp>
#include <sdsl/nearest_neighbour_dictionary.hpp>
#include <sdsl/nn_dict_dynamic.hpp>
#include <sdsl/inv_perm_support.hpp>
#include <sdsl/louds_tree.hpp>
#include <sdsl/sorted_int_stack.hpp>
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
#include <memory>
#include <sstream>

namespace val
{
typedef std::vector<uint64_t> Digest;

// A content is a pair (seed, size); building it twice gives the same structure.
struct Content {
    uint64_t seed = 0;
    size_t max = 0;
};
struct Tape {
    std::vector<uint8_t> mem;
    Src s;
    Tape(uint64_t seed) : mem(1 << 16), s(mem.data(), 0, mem.size(), true, seed) {}
};
struct Sample { // positions of [0,n), all of them for small n
    size_t n, step, i = 0;
    Sample(size_t n, size_t max = 60) : n(n), step(n > max ? n / max : 1) {}
    bool next(size_t& x)
    {
        if (i >= n) return false;
        x = i;
        i = i + step < n or i == n - 1 ? i + step : n - 1; // the last position is included
        return true;
    }
};
#define EACH(i, n) for (val::Sample smp_##i(n); smp_##i.next(i);)

// ---- a vector with structures that refer to it: they are moved together, as the documentation asks for
template<class V, class... S> struct Sup;
template<class V> struct Sup<V> {
    void copy(const Sup&, V&, const V&) {}
    void move(Sup&, V&) {}
    void swap(Sup&, V&, V&) {}
    uint64_t serialize(std::ostream&, structure_tree_node*, size_t) const { return 0; }
    void load(std::istream&, V&) {}
    template<class A> void ask(A&, const V&) const {}
    void init(V&) {}
};
template<class S, class V> auto load_sup(S& s, std::istream& in, V& v, int) -> decltype(s.load(in, &v)) { return s.load(in, &v); }
template<class S, class V> void load_sup(S& s, std::istream& in, V& v, long) { s.load(in); s.set_vector(&v); }
template<class V, class S0, class... S> struct Sup<V, S0, S...> {
    S0 s;
    Sup<V, S...> rest;
    void init(V& v) { S0 t(&v); s.swap(t); s.set_vector(&v); rest.init(v); }
    void copy(const Sup& o, V& v, const V& ov) { s = o.s; s.set_vector(&v); rest.copy(o.rest, v, ov); }
    void move(Sup& o, V& v) { s = std::move(o.s); s.set_vector(&v); rest.move(o.rest, v); }
    void swap(Sup& o, V& v, V& ov) { util::swap_support(s, o.s, &v, &ov); rest.swap(o.rest, v, ov); }
    uint64_t serialize(std::ostream& out, structure_tree_node* node, size_t i) const
    {
        uint64_t w = s.serialize(out, node, "support" + std::to_string(i));
        return w + rest.serialize(out, node, i + 1);
    }
    void load(std::istream& in, V& v) { load_sup(s, in, v, 0); rest.load(in, v); }
    template<class A> void ask(A& a, const V& v) const { a(s, v); rest.ask(a, v); }
};
template<class V, class... S> struct With {
    typedef uint64_t size_type;
    V v;
    Sup<V, S...> s;
    With() {}
    void init() { s.init(v); }
    With(const With& o) : v(o.v) { s.copy(o.s, v, o.v); }
    With(With&& o) : v(std::move(o.v)) { s.move(o.s, v); }
    With& operator=(const With& o) { if (this != &o) { v = o.v; s.copy(o.s, v, o.v); } return *this; }
    With& operator=(With&& o) { if (this != &o) { v = std::move(o.v); s.move(o.s, v); } return *this; }
    void swap(With& o) { if (this != &o) { v.swap(o.v); s.swap(o.s, v, o.v); } }
    uint64_t serialize(std::ostream& out, structure_tree_node* node = nullptr, std::string name = "") const
    {
        structure_tree_node* child = structure_tree::add_child(node, name, "With");
        uint64_t w = v.serialize(out, child, "vector");
        w += s.serialize(out, child, 0);
        structure_tree::add_size(child, w);
        return w;
    }
    void load(std::istream& in) { v.load(in); s.load(in, v); }
};

// ---- kits: default_kit<T>::build and ask
template<class V> struct kit_iv {
    typedef V type;
    static void build(type& t, Src& s, size_t max)
    {
        unsigned fixed = V().width(), w = s.in(1, 64);
        bool keep = std::is_same<V, int_vector<>>::value;
        if (!keep) w = fixed;
        auto x = gen::ints(s, max, w);
        V v(x.size(), 0, w);
        for (size_t i = 0; i < x.size(); ++i) v[i] = x[i];
        if (s.b()) v.resize(v.size() / 2);
        t = v;
    }
    static void ask(const type& t, Digest& d)
    {
        d.push_back(t.size());
        d.push_back(t.width());
        d.push_back(t.bit_size());
        d.push_back(t.empty());
        d.push_back(t.begin() == t.end());
        size_t i;
        EACH(i, t.size()) d.push_back(t[i]);
        for (auto x : t) d.back() = d.back() * 31 + x;
    }
};
template<uint8_t b, uint8_t l> struct Pat {
    template<class V> static std::vector<uint64_t> ends(const V& v)
    {
        std::vector<uint64_t> p;
        for (size_t i = 0; i < v.size(); ++i) {
            if (l == 1 and v[i] == b) p.push_back(i);
            if (l == 2 and i and v[i - 1] == b / 10 and v[i] == b % 10) p.push_back(i);
        }
        return p;
    }
};
template<class S> struct pat_of {
    enum { b = S::bit_pat, l = S::bit_pat_len };
};
template<uint8_t B, uint8_t L> struct pat_of<select_support_scan<B, L>> {
    enum { b = B, l = L };
};
struct AskBits {
    Digest& d;
    template<class S, class V> auto go(const S& s, const V& v, int) -> decltype(s.rank(0), void())
    {
        size_t i;
        d.push_back(s.size());
        EACH(i, v.size() + 1) d.push_back(s(i));
    }
    template<class S, class V> auto go(const S& s, const V& v, long) -> decltype(s.select(1), void())
    {
        auto p = Pat<pat_of<S>::b, pat_of<S>::l>::ends(v);
        size_t i;
        EACH(i, p.size()) d.push_back(s(i + 1));
    }
    template<class S, class V> void operator()(const S& s, const V& v) { go(s, v, 0); }
};
template<class V, class... S> struct kit_bv {
    typedef With<V, S...> type;
    static void build(type& t, Src& s, size_t max)
    {
        auto in = bvgen::make(s, max);
        t.v = V(in.bv);
        t.init();
    }
    static void ask(const type& t, Digest& d)
    {
        size_t i;
        d.push_back(t.v.size());
        EACH(i, t.v.size()) d.push_back(t.v[i]);
        EACH(i, t.v.size()) d.push_back(t.v.get_int(i, std::min<size_t>(64, t.v.size() - i)));
        if (t.v.size()) {
            AskBits a{d};
            t.s.ask(a, t.v);
        }
    }
};
template<class V> struct kit_civ {
    typedef V type;
    static void build(type& t, Src& s, size_t max)
    {
        auto x = gen::ints(s, max, s.in(1, 40));
        t = V(x);
    }
    static void ask(const type& t, Digest& d)
    {
        size_t i;
        d.push_back(t.size());
        d.push_back(t.empty());
        EACH(i, t.size()) d.push_back(t[i]);
        uint64_t h = 0;
        for (auto x : t) h = h * 31 + x;
        d.push_back(h);
    }
};
template<class T> struct kit_wt {
    typedef T type;
    static void build(type& t, Src& s, size_t max)
    {
        const uint8_t W = T::alphabet_category::WIDTH;
        auto seq = wt_seq(s, max, W == 8 ? 255 : s.b() ? 2000 : 60);
        int_vector<W> v(seq.size(), 0, W ? W : 12);
        for (size_t i = 0; i < seq.size(); ++i) v[i] = seq[i];
        construct_im(t, v);
    }
    template<class U> static auto inv(const U& t, size_t i, Digest& d, int) -> decltype(t.inverse_select(i), void())
    {
        auto p = t.inverse_select(i);
        d.push_back(p.first);
        d.push_back(p.second);
    }
    template<class U> static void inv(const U&, size_t, Digest&, long) {}
    template<class U> static auto nodes(const U& t, Digest& d, int) -> decltype(t.root(), void())
    {
        std::vector<typename U::node_type> q;
        if (t.size()) q.push_back(t.root());
        for (size_t i = 0; i < q.size() and i < 40; ++i) {
            d.push_back(t.size(q[i]));
            d.push_back(t.is_leaf(q[i]));
            if (t.is_leaf(q[i])) {
                d.push_back(t.sym(q[i]));
                continue;
            }
            auto c = t.expand(q[i]);
            for (auto& x : c) q.push_back(x);
        }
    }
    template<class U> static void nodes(const U&, Digest&, long) {}
    static void ask(const type& t, Digest& d)
    {
        size_t i;
        d.push_back(t.size());
        d.push_back(t.sigma);
        EACH(i, t.size()) {
            auto c = t[i];
            d.push_back(c);
            uint64_t r = t.rank(i + 1, c);
            d.push_back(r);
            d.push_back(t.select(r, c));
            d.push_back(t.rank(t.size(), c));
            inv(t, i, d, 0);
        }
        for (int c : {0, 1, 97, 200}) d.push_back(t.rank(t.size(), c));
        nodes(t, d, 0);
    }
};
template<class C> struct index_is_byte {
    enum { value = C::alphabet_category::WIDTH == 8 };
};
template<class T> void build_index(T& t, Src& s, size_t max, bool bytes)
{
    if (bytes) {
        auto x = byte_text(s, max);
        construct_im(t, string(x.begin(), x.end()), 1);
    } else {
        auto x = int_text(s, max, s.b() ? 20 : 5000);
        int_vector<> v(x.size(), 0, 14);
        for (size_t i = 0; i < x.size(); ++i) v[i] = x[i];
        construct_im(t, v, 0);
    }
}
template<class C> void ask_csa(const C& t, Digest& d)
{
    size_t i;
    d.push_back(t.size());
    d.push_back(t.empty());
    d.push_back(t.sigma);
    if (t.size() == 0) return;
    EACH(i, t.size()) {
        d.push_back(t[i]);
        d.push_back(t.isa[i]);
        d.push_back(t.psi[i]);
        d.push_back(t.lf[i]);
        d.push_back(t.bwt[i]);
        d.push_back(t.F[i]);
        d.push_back(t.text[i]);
    }
    EACH(i, t.sigma) {
        auto ch = t.comp2char[i];
        d.push_back(ch);
        d.push_back(t.char2comp[ch]);
        d.push_back(t.C[i]);
        typename C::string_type p(1, ch);
        if (ch) d.push_back(count(t, p.begin(), p.end()));
    }
    auto x = extract(t, 0, std::min<size_t>(t.size() - 1, 20));
    for (auto ch : x) d.push_back(ch);
    EACH(i, t.size() + 1) {
        d.push_back(t.bwt.rank(i, t.comp2char[i % t.sigma]));
        d.push_back(t.bwt.rank(i, t.comp2char[t.sigma / 2]));
    }
    EACH(i, t.size()) {
        auto ch = t.F[i];
        d.push_back(t.bwt.select(i - t.C[t.char2comp[ch]] + 1, ch));
        if (i + 4 < t.size()) {
            auto p = extract(t, i, i + 2);
            d.push_back(count(t, p.begin(), p.end()));
        }
    }
}
template<class T> struct kit_csa {
    typedef T type;
    static void build(type& t, Src& s, size_t max) { build_index(t, s, max, index_is_byte<T>::value); }
    static void ask(const type& t, Digest& d) { ask_csa(t, d); }
};
template<class T> struct kit_lcp {
    typedef T type;
    static void build(type& t, Src& s, size_t max) { build_index(t, s, max, s.b()); }
    static void ask(const type& t, Digest& d)
    {
        size_t i;
        d.push_back(t.size());
        d.push_back(t.empty());
        EACH(i, t.size()) d.push_back(t[i]);
        uint64_t h = 0;
        for (auto x : t) h = h * 31 + x;
        d.push_back(h);
    }
};
template<class T> struct lcp_of {
    template<class N> static void ask(const T& t, const N&, size_t i, Digest& d) { d.push_back(t.lcp[i]); }
};
template<class A, uint32_t B, class C, class D, class E, bool F> struct lcp_of<cst_fully<A, B, C, D, E, F>> {
    template<class T, class N> static void ask(const T&, const N&, size_t, Digest&) {}
};
template<class T> struct kit_cst {
    typedef T type;
    static void build(type& t, Src& s, size_t max)
    {
        do build_index(t, s, max, index_is_byte<T>::value); // a tree of a single node is a corner case of its own
        while (t.size() < 2);
    }
    static void ask(const type& t, Digest& d)
    {
        d.push_back(t.size());
        if (t.size() == 0) return;
        ask_csa(t.csa, d);
        d.push_back(t.nodes());
        typedef typename T::node_type N;
        std::vector<N> q(1, t.root());
        size_t i;
        EACH(i, t.size()) lcp_of<T>::ask(t, q[0], i, d);
        for (size_t k = 0; k < q.size() and k < 40; ++k) {
            N v = q[k];
            d.push_back(t.lb(v));
            d.push_back(t.rb(v));
            d.push_back(t.depth(v));
            d.push_back(t.is_leaf(v));
            d.push_back(t.degree(v));
            if (!(v == t.root())) {
                N p = t.parent(v), l = t.sl(v);
                d.push_back(t.lb(p));
                d.push_back(t.rb(p));
                d.push_back(t.lb(l));
                d.push_back(t.rb(l));
                N a = t.lca(v, q[k / 2]);
                d.push_back(t.lb(a));
                d.push_back(t.rb(a));
            }
            if (!t.is_leaf(v)) for (auto w : t.children(v)) q.push_back(w);
        }
        EACH(i, t.size()) {
            N v = t.select_leaf(i + 1);
            d.push_back(t.lb(v));
            d.push_back(t.sn(v));
        }
    }
};
inline std::vector<bool> parens(Src& s, size_t max)
{
    size_t n = s.len(max / 2);
    Rng r(s.seed());
    unsigned up = 1 + s.u(8);
    std::vector<bool> b;
    if (!n) return b;
    b.push_back(1); // one tree
    size_t open = 1, depth = 1;
    while (open < n) {
        if (depth > 1 and r.below(10) >= up) b.push_back(0), --depth;
        else b.push_back(1), ++open, ++depth;
    }
    while (depth--) b.push_back(0);
    return b;
}
template<class B> struct kit_bp {
    typedef With<bit_vector, B> type;
    static void build(type& t, Src& s, size_t max)
    {
        auto p = parens(s, max);
        bit_vector b(p.size());
        for (size_t i = 0; i < p.size(); ++i) b[i] = p[i];
        t.v = b;
        t.init();
    }
    static void ask(const type& t, Digest& d)
    {
        d.push_back(t.v.size());
        if (!t.v.size()) return;
        const B& b = t.s.s;
        size_t i;
        d.push_back(b.size());
        EACH(i, t.v.size()) {
            d.push_back(t.v[i]);
            d.push_back(b.rank(i));
            d.push_back(b.excess(i));
            if (t.v[i]) {
                d.push_back(b.find_close(i));
                d.push_back(b.enclose(i));
                size_t j = b.size() / 2;
                if (t.v[j] and i < j and b.find_close(i) < j) d.push_back(b.rr_enclose(i, j));
            } else d.push_back(b.find_open(i));
        }
        EACH(i, t.v.size() / 2) d.push_back(b.select(i + 1));
    }
};
template<class R> struct kit_rmq_table {
    typedef With<int_vector<>, R> type;
    static void build(type& t, Src& s, size_t max)
    {
        auto x = gen::ints(s, max, 20);
        int_vector<> v(x.size(), 0, 20);
        for (size_t i = 0; i < x.size(); ++i) v[i] = x[i];
        t.v = v;
        t.init();
    }
    static void ask(const type& t, Digest& d)
    {
        size_t i;
        d.push_back(t.v.size());
        EACH(i, t.v.size()) d.push_back(t.s.s(i, t.v.size() - 1));
        EACH(i, t.v.size()) d.push_back(t.s.s(0, i));
    }
};
template<class R> struct kit_rmq {
    typedef R type;
    static void build(type& t, Src& s, size_t max)
    {
        auto x = gen::ints(s, max, 20);
        int_vector<> v(x.size(), 0, 20);
        for (size_t i = 0; i < x.size(); ++i) v[i] = x[i];
        R u(&v);
        t = std::move(u);
    }
    static void ask(const type& t, Digest& d)
    {
        size_t i;
        d.push_back(t.size());
        EACH(i, t.size()) d.push_back(t(i, t.size() - 1));
        EACH(i, t.size()) d.push_back(t(0, i));
    }
};
template<class K> struct kit_k2treap {
    typedef K type;
    static void build(type& t, Src& s, size_t max)
    {
        size_t n = s.len(std::min<size_t>(max, 120));
        unsigned b = s.in(1, 20);
        Rng r(s.seed());
        std::set<std::pair<uint64_t, uint64_t>> seen;
        std::vector<std::array<uint64_t, 3>> v;
        for (size_t i = 0; i < n; ++i) {
            uint64_t x = r.below(1ULL << b), y = r.below(1ULL << b);
            if (seen.insert({x, y}).second) v.push_back({{x, y, r.below(1000)}});
        }
        construct_im(t, v);
    }
    static void ask(const type& t, Digest& d)
    {
        d.push_back(t.size());
        if (!t.size()) return;
        for (unsigned b = 1; b <= 20; b += 3) {
            uint64_t m = (1ULL << b) - 1;
            d.push_back(count(t, {0, 0}, {m, m}));
            auto it = top_k(t, {0, 0}, {m, m});
            for (int i = 0; i < 10 and it; ++i, ++it) {
                auto p = *it;
                d.push_back(p.second);
            }
            uint64_t sum = 0;
            auto jt = range_3d(t, {0, 0}, {m, m}, {100, 600});
            for (; jt; ++jt) {
                auto p = *jt;
                sum += real(p.first) * 31 + imag(p.first) * 17 + p.second;
            }
            d.push_back(sum);
        }
    }
};
template<class K> struct kit_k2tree {
    typedef K type;
    static void build(type& t, Src& s, size_t max)
    {
        size_t m = 1 + s.len(std::min<size_t>(max, 150)), n = s.in(301, s.b() ? 600 : 100000);
        Rng r(s.seed());
        std::vector<std::tuple<uint64_t, uint64_t>> e;
        while (m--) e.emplace_back(r.below(n), r.below(n));
        K u(e, n);
        t.swap(u);
    }
    static void ask(const type& t, Digest& d)
    {
        std::stringstream o;
        d.push_back(t.serialize(o) > 100);
        if (t == K()) return; // an empty graph
        for (uint64_t i = 0; i < 30; ++i) {
            for (auto x : t.neigh(i)) d.push_back(x);
            d.push_back(~0ULL);
            for (auto x : t.reverse_neigh(i)) d.push_back(x);
            d.push_back(t.adj(i, 30 - i));
        }
        for (auto& x : t.range(0, 300, 0, 300)) d.push_back(x.first * 1000 + x.second);
    }
};
template<uint8_t D> struct kit_nnd {
    typedef nearest_neighbour_dictionary<D> type;
    static void build(type& t, Src& s, size_t max)
    {
        auto in = bvgen::make(s, max);
        t = type(in.bv);
    }
    static void ask(const type& t, Digest& d)
    {
        size_t i;
        d.push_back(t.size());
        d.push_back(t.ones());
        EACH(i, t.size()) {
            uint64_t r = t.rank(i + 1);
            d.push_back(r);
            if (r) d.push_back(t.prev(i));
            if (t.rank(i) < t.ones()) d.push_back(t.next(i));
        }
        EACH(i, t.ones()) d.push_back(t.select(i + 1));
    }
};
struct kit_nndyn {
    typedef nn_dict_dynamic type;
    static void build(type& t, Src& s, size_t max)
    {
        size_t n = s.len(max * 20);
        nn_dict_dynamic x(n);
        Rng r(s.seed());
        for (size_t k = n ? s.u(40) : 0; k--;) x[r.below(n)] = 1;
        t = x;
    }
    static void ask(const type& t, Digest& d)
    {
        size_t i;
        d.push_back(t.size());
        EACH(i, t.size()) {
            d.push_back(t[i]);
            d.push_back(t.next(i));
            d.push_back(t.prev(i));
        }
    }
};
template<class I> struct kit_inv {
    typedef With<int_vector<>, I> type;
    static void build(type& t, Src& s, size_t max)
    {
        auto p = gen::perm(s, max);
        int_vector<> v(p.size(), 0, 14);
        for (size_t i = 0; i < p.size(); ++i) v[i] = p[i];
        t.v = v;
        t.init();
    }
    static void ask(const type& t, Digest& d)
    {
        size_t i;
        d.push_back(t.v.size());
        if (!t.v.size()) return;
        d.push_back(t.s.s.size());
        EACH(i, t.v.size()) d.push_back(t.s.s[i]);
    }
};
template<class S> struct kit_stack {
    typedef S type;
    static type make(Src& s, size_t max)
    {
        size_t n = 1 + s.len(max * 3);
        S u(n);
        Rng r(s.seed());
        uint64_t x = 0, gap = 1 + s.u(100);
        for (size_t k = s.len(100); k--;) {
            x += 1 + r.below(gap);
            if (x >= n) break;
            u.push(x);
        }
        return u;
    }
    static void ask(const type& t, Digest& d)
    {
        S c(t);
        d.push_back(c.size());
        d.push_back(c.empty());
        while (!c.empty()) {
            d.push_back(c.top());
            c.pop();
        }
    }
};
// an ordinal tree, nodes in breadth-first order
struct Ordinal {
    typedef size_t node_type;
    typedef size_t size_type;
    std::vector<std::vector<size_t>> ch;
    size_t root() const { return 0; }
    size_t size(size_t) const { return ch.size(); } // an upper bound for the number of leaves
};
struct Breadth {
    const Ordinal* t;
    size_t v;
    size_t size() const { return t->ch.size() - v; }
    size_t operator*() const { return v; }
    Breadth& operator++()
    {
        ++v;
        return *this;
    }
    bool operator!=(const Breadth& o) const { return v != o.v; }
};
template<class L> struct kit_louds {
    typedef L type;
    static type make(Src& s, size_t max)
    {
        Ordinal o;
        size_t n = 1 + s.len(max), spread = 1 + s.u(4);
        Rng r(s.seed());
        o.ch.resize(n);
        for (size_t next = 1, v = 0; v < n; ++v)
            for (size_t d = v + 1 == next ? 1 + r.below(spread) : r.below(spread + 1); d-- and next < n;) o.ch[v].push_back(next++);
        L l(o, Breadth{&o, 0}, Breadth{&o, n});
        return l;
    }
    static void ask(const type& t, Digest& d)
    {
        size_t i;
        d.push_back(t.nodes());
        if (!t.nodes()) return;
        std::vector<decltype(t.root())> q(1, t.root());
        for (i = 0; i < q.size() and i < 40; ++i) {
            auto v = q[i];
            for (size_t k = 1; k <= t.degree(v); ++k) q.push_back(t.child(v, k));
            d.push_back(v.pos);
            d.push_back(t.id(v));
            d.push_back(t.is_leaf(v));
            d.push_back(t.degree(v));
            if (t.degree(v)) d.push_back(t.child(v, 1).nr);
            if (i) d.push_back(t.parent(v).nr);
        }
    }
};
template<class A, class B> struct kit_alphabet {
    typedef A type;
    static void build(type& t, Src& s, size_t max)
    {
        const uint8_t W = B::value;
        auto x = W ? byte_text(s, max) : int_text(s, max, s.b() ? 9 : 3000);
        x.push_back(0);
        int_vector<W> v(x.size(), 0, W ? W : 13);
        for (size_t i = 0; i < x.size(); ++i) v[i] = x[i];
        static thread_local char buf_name;
        string f = "@alph" + std::to_string((uint64_t)(uintptr_t)&buf_name); // unique among threads
        store_to_file(v, f);
        int_vector_buffer<W> buf(f);
        A a(buf, v.size());
        t = std::move(a);
        buf.close(true);
    }
    static void ask(const type& t, Digest& d)
    {
        d.push_back(t.sigma);
        for (size_t i = 0; i < t.sigma; ++i) {
            d.push_back(t.comp2char[i]);
            d.push_back(t.C[i]);
            d.push_back(t.char2comp[t.comp2char[i]]);
        }
        if (t.sigma) d.push_back(t.C[t.sigma]);
    }
};
// structures whose construction takes long (it goes through large buffers even for small inputs)
template<class K> struct slow { enum { value = 0 }; };
template<class T> struct slow<kit_csa<T>> { enum { value = 1 }; };
template<class T> struct slow<kit_lcp<T>> { enum { value = 1 }; };
template<class T> struct slow<kit_cst<T>> { enum { value = 1 }; };
template<class T> struct slow<kit_wt<T>> { enum { value = 1 }; };
// a new object with a content (or default constructed), and the same inside an existing object
template<class K> auto make_(bool filled, Src& s, size_t max, int) -> decltype(std::unique_ptr<typename K::type>(new typename K::type(K::make(s, max))))
{
    if (!filled) { // there is no default constructor
        Tape t(1);
        return std::unique_ptr<typename K::type>(new typename K::type(K::make(t.s, 5)));
    }
    return std::unique_ptr<typename K::type>(new typename K::type(K::make(s, max)));
}
template<class K> std::unique_ptr<typename K::type> make_(bool filled, Src& s, size_t max, long)
{
    std::unique_ptr<typename K::type> p(new typename K::type());
    if (filled) K::build(*p, s, max);
    return p;
}
template<class K> std::unique_ptr<typename K::type> make(bool filled, Src& s, size_t max) { return make_<K>(filled, s, max, 0); }
template<class K> auto rebuild_(typename K::type& t, Src& s, size_t max, int) -> decltype(K::build(t, s, max)) { K::build(t, s, max); }
template<class K> void rebuild_(typename K::type& t, Src& s, size_t max, long) { t = K::make(s, max); }
template<class K> void rebuild(typename K::type& t, bool filled, Src& s, size_t max)
{
    if (filled) rebuild_<K>(t, s, max, 0);
    else t = *make<K>(false, s, max);
}
struct W8 { enum { value = 8 }; };
struct W0 { enum { value = 0 }; };

typedef kit_bv<bit_vector, rank_support_v<1>, rank_support_v<0>, rank_support_v<10, 2>, rank_support_v5<1>, rank_support_v5<0>, rank_support_scan<1>, rank_support_scan<0>,
        select_support_mcl<1>, select_support_mcl<0>, select_support_mcl<10, 2>, select_support_scan<1>, select_support_scan<0>> kit_bitvector;
template<class V> using kit_enc = kit_bv<V, typename V::rank_1_type, typename V::rank_0_type, typename V::select_1_type, typename V::select_0_type>;
template<class V> using kit_encns = kit_bv<V, typename V::rank_1_type, typename V::rank_0_type>;
typedef sa_order_sa_sampling<> SS;
typedef isa_sampling<> IS;
typedef text_order_sa_sampling<> TS;
typedef text_order_isa_sampling_support<> TI;
typedef fuzzy_sa_sampling<> FS;
typedef fuzzy_isa_sampling_support<> FI;
typedef int_alphabet<> IA;
typedef csa_wt<wt_huff<>, 4, 8> cw;
typedef csa_sada<enc_vector<>, 4, 8> cs;
typedef csa_wt<wt_int<>, 4, 8, SS, IS, IA> cwi;

#ifndef PART
#define PART 0
#endif
#if PART == 0
#define VALUES(X) \
    X(int_vector, 1000, (kit_iv<int_vector<>>)) \
    X(int_vector_1, 1000, (kit_iv<int_vector<1>>)) \
    X(int_vector_8, 1000, (kit_iv<int_vector<8>>)) \
    X(int_vector_13, 1000, (kit_iv<int_vector<13>>)) \
    X(int_vector_64, 1000, (kit_iv<int_vector<64>>)) \
    X(bit_vector_supports, 1000, (kit_bitvector)) \
    X(il, 1500, (kit_enc<bit_vector_il<>>)) \
    X(il_128, 700, (kit_enc<bit_vector_il<128>>)) \
    X(rrr_15, 700, (kit_enc<rrr_vector<15>>)) \
    X(rrr_63, 700, (kit_enc<rrr_vector<63>>)) \
    X(rrr_256, 700, (kit_enc<rrr_vector<256, int_vector<>, 4>>)) \
    X(rrr_63_vlc, 300, (kit_enc<rrr_vector<63, vlc_vector<>, 32>>)) \
    X(sd, 1000, (kit_enc<sd_vector<>>)) \
    X(sd_rrr, 700, (kit_enc<sd_vector<rrr_vector<63>>>)) \
    X(sd_scan, 500, (kit_enc<sd_vector<bit_vector, select_support_scan<1>, select_support_scan<0>>>)) \
    X(hyb, 1500, (kit_encns<hyb_vector<16>>)) \
    X(enc, 500, (kit_civ<enc_vector<>>)) \
    X(enc_fib, 500, (kit_civ<enc_vector<coder::fibonacci, 7>>)) \
    X(enc_comma, 500, (kit_civ<enc_vector<coder::comma<>>>)) \
    X(vlc, 500, (kit_civ<vlc_vector<>>)) \
    X(vlc_gamma, 500, (kit_civ<vlc_vector<coder::elias_gamma, 9>>)) \
    X(dac, 500, (kit_civ<dac_vector<>>)) \
    X(dac_5, 500, (kit_civ<dac_vector<5, rank_support_v<>>>)) \
    X(dac_dp, 300, (kit_civ<dac_vector_dp<>>)) \
    X(dac_dp_rrr, 300, (kit_civ<dac_vector_dp<rrr_vector<63>>>))
#elif PART == 1
#define VALUES(X) \
    X(wt_huff, 400, (kit_wt<wt_huff<>>)) \
    X(wt_hutu, 400, (kit_wt<hutu_rrr_t>)) \
    X(wt_blcd, 400, (kit_wt<wt_blcd<>>)) \
    X(wt_blcd_int, 300, (kit_wt<blcd_int_t>)) \
    X(wt_huff_int, 300, (kit_wt<huff_int_rrr_t>)) \
    X(wt_huff_il, 400, (kit_wt<huff_il_t>)) \
    X(wt_rlmn, 300, (kit_wt<wt_rlmn<>>)) \
    X(wt_rlmn_int, 300, (kit_wt<rlmn_int_t>)) \
    X(wt_int, 400, (kit_wt<wt_int<>>)) \
    X(wt_int_rrr, 300, (kit_wt<wtint_rrr_t>)) \
    X(wm_int, 400, (kit_wt<wm_int<>>)) \
    X(wm_int_rrr, 300, (kit_wt<wmint_rrr_t>)) \
    X(wt_ap, 300, (kit_wt<wt_ap<>>)) \
    X(wt_gmr, 300, (kit_wt<wt_gmr<>>)) \
    X(wt_gmr_enc, 300, (kit_wt<gmr_enc_t>)) \
    X(wt_gmr_rs, 300, (kit_wt<gmrrs_t>)) \
    X(wt_gmr_rs_enc, 300, (kit_wt<gmrrs_enc_t>))
#elif PART == 2
#define VALUES(X) \
    X(csa_wt, 120, (kit_csa<csa_wt<>>)) \
    X(csa_wt_text_order, 120, (kit_csa<csa_wt<wt_huff<>, 8, 8, TS, TI>>)) \
    X(csa_wt_text_order_isa, 120, (kit_csa<csa_wt<wt_huff<>, 8, 8, TS, IS>>)) \
    X(csa_wt_fuzzy, 120, (kit_csa<csa_wt<wt_huff<>, 8, 8, FS, FI>>)) \
    X(csa_wt_fuzzy_isa, 120, (kit_csa<csa_wt<wt_huff<>, 8, 8, FS, IS>>)) \
    X(csa_wt_bwt, 120, (kit_csa<csa_wt<wt_blcd<>, 8, 8, sa_bwt_sampling<>>>)) \
    X(csa_wt_succinct_alphabet, 120, (kit_csa<csa_wt<wt_huff<>, 8, 16, SS, IS, succinct_byte_alphabet<>>>)) \
    X(csa_sada, 120, (kit_csa<csa_sada<>>)) \
    X(csa_sada_text_order, 120, (kit_csa<csa_sada<enc_vector<>, 8, 8, TS, TI>>)) \
    X(csa_sada_fuzzy, 120, (kit_csa<csa_sada<enc_vector<>, 8, 8, FS, FI>>)) \
    X(csa_sada_fib, 120, (kit_csa<csa_sada<enc_vector<coder::fibonacci, 5>, 5, 6, sa_bwt_sampling<>>>)) \
    X(csa_bitcompressed, 120, (kit_csa<csa_bitcompressed<>>)) \
    X(byte_alphabet, 200, (kit_alphabet<byte_alphabet, W8>)) \
    X(succinct_alphabet, 200, (kit_alphabet<succinct_byte_alphabet<>, W8>)) \
    X(int_alphabet, 200, (kit_alphabet<int_alphabet<>, W0>)) \
    X(int_alphabet_rrr, 200, (kit_alphabet<int_alphabet<rrr_vector<63>>, W0>))
#elif PART == 3
#define VALUES(X) \
    X(csa_wt_int, 120, (kit_csa<csa_wt_int<>>)) \
    X(csa_wt_int_text_order, 120, (kit_csa<csa_wt<wm_int<>, 8, 8, TS, TI, IA>>)) \
    X(csa_wt_int_fuzzy, 120, (kit_csa<csa_wt<wt_int<>, 4, 4, FS, FI, IA>>)) \
    X(csa_wt_int_ap, 120, (kit_csa<csa_wt<wt_ap<>, 6, 9, SS, IS, IA>>)) \
    X(csa_sada_int, 120, (kit_csa<csa_sada_int<>>)) \
    X(csa_sada_int_text_order, 120, (kit_csa<csa_sada<enc_vector<>, 4, 4, TS, TI, IA>>)) \
    X(csa_bitcompressed_int, 120, (kit_csa<csa_bitcompressed<int_alphabet<>>>)) \
    X(lcp_bitcompressed, 200, (kit_lcp<lcp_bitcompressed<>>)) \
    X(lcp_byte, 600, (kit_lcp<lcp_byte<>>)) \
    X(lcp_wt, 300, (kit_lcp<lcp_wt<>>)) \
    X(lcp_dac, 300, (kit_lcp<lcp_dac<>>)) \
    X(lcp_dac_dp, 300, (kit_lcp<lcp_dac_dp<>>)) \
    X(lcp_vlc, 300, (kit_lcp<lcp_vlc<>>))
#elif PART == 4
#define VALUES(X) \
    X(cst_sct3, 100, (kit_cst<cst_sct3<>>)) \
    X(cst_sct3_sada, 100, (kit_cst<cst_sct3<cs, lcp_support_sada<>>>)) \
    X(cst_sct3_tree, 100, (kit_cst<cst_sct3<csa_bitcompressed<>, lcp_support_tree<>, bp_support_g<>>>)) \
    X(cst_sct3_tree2, 100, (kit_cst<cst_sct3<csa_bitcompressed<>, lcp_support_tree2<>, bp_support_gg<>>>)) \
    X(cst_sct3_fuzzy, 100, (kit_cst<cst_sct3<csa_wt<wt_huff<>, 8, 8, FS, FI>, lcp_support_sada<>>>)) \
    X(cst_sct3_int, 100, (kit_cst<cst_sct3<cwi, lcp_dac<>>>))
#elif PART == 5
#define VALUES(X) \
    X(cst_sada, 100, (kit_cst<cst_sada<>>)) \
    X(cst_sada_tree, 100, (kit_cst<cst_sada<cw, lcp_support_tree<>, bp_support_gg<>>>)) \
    X(cst_sada_tree2, 100, (kit_cst<cst_sada<csa_bitcompressed<>, lcp_support_tree2<>, bp_support_g<>>>)) \
    X(cst_sada_int, 100, (kit_cst<cst_sada<cwi, lcp_vlc<>>>)) \
    X(cst_fully, 60, (kit_cst<cst_fully<cw, 4>>)) \
    X(cst_fully_int, 60, (kit_cst<cst_fully<cwi, 6, bp_support_g<>>>))
#else
#define VALUES(X) \
    X(bp_sada, 1500, (kit_bp<bp_support_sada<>>)) \
    X(bp_sada_32, 1500, (kit_bp<bp_support_sada<32, 4, rank_support_v<>, select_support_scan<>>>)) \
    X(bp_g, 1500, (kit_bp<bp_support_g<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, range_maximum_support_sparse_table<>, 64>>)) \
    X(bp_g_840, 3000, (kit_bp<bp_support_g<>>)) \
    X(bp_gg, 1500, (kit_bp<bp_support_gg<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, 41>>)) \
    X(bp_gg_840, 3000, (kit_bp<bp_support_gg<>>)) \
    X(rmq_table, 300, (kit_rmq_table<rmq_support_sparse_table<>>)) \
    X(rmq_table_max, 300, (kit_rmq_table<rmq_support_sparse_table<int_vector<>, false>>)) \
    X(rmq_sct, 300, (kit_rmq<rmq_succinct_sct<>>)) \
    X(rmq_sct_max_g, 300, (kit_rmq<rmq_succinct_sct<false, bp_support_g<>>>)) \
    X(rmq_sada, 300, (kit_rmq<rmq_succinct_sada<>>)) \
    X(rmq_sada_gg, 300, (kit_rmq<rmq_succinct_sada<true, bp_support_gg<>>>)) \
    X(k2_treap, 200, (kit_k2treap<k2_treap<2, rrr_vector<63>>>)) \
    X(k2_treap_8, 200, (kit_k2treap<k2_treap<8, bit_vector, rank_support_v<>, dac_vector<>>>)) \
    X(k2_tree, 200, (kit_k2tree<k2_tree<2>>)) \
    X(k2_tree_4, 200, (kit_k2tree<k2_tree<4, rrr_vector<63>>>)) \
    X(nnd, 600, (kit_nnd<30>)) \
    X(nnd_2, 600, (kit_nnd<2>)) \
    X(nn_dynamic, 300, (kit_nndyn)) \
    X(inv_perm, 300, (kit_inv<inv_perm_support<>>)) \
    X(inv_perm_rrr, 300, (kit_inv<inv_perm_support<3, rrr_vector<63>, rrr_vector<63>::rank_1_type>>)) \
    X(stack, 200, (kit_stack<sorted_stack_support>)) \
    X(multi_stack, 200, (kit_stack<sorted_multi_stack_support>)) \
    X(int_stack, 200, (kit_stack<sorted_int_stack>)) \
    X(louds, 60, (kit_louds<louds_tree<>>)) \
    X(louds_rrr, 60, (kit_louds<louds_tree<rrr_vector<63>>>))
#endif
} // namespace val
#define UNPAREN(...) __VA_ARGS__
