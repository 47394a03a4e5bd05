// Reference suffix tree (from the naive suffix and LCP arrays) and the configurations of compressed suffix trees.
#pragma once
#include "csacommon.hpp"
#include <sdsl/suffix_trees.hpp>
#include <sdsl/cst_iterators.hpp>

struct TreeModel {
    struct Node {
        uint64_t lb, rb, depth;
        size_t parent;
        std::vector<size_t> ch;
        size_t index, level; // position among the siblings, node depth
        bool leaf() const { return ch.empty(); }
    };
    TextModel m;
    std::vector<Node> v;                     // in preorder, root first
    std::vector<size_t> leaf;                // node of the i-th leaf
    std::map<std::pair<uint64_t, uint64_t>, size_t> by_iv;
    void build(const std::vector<uint64_t>& text)
    {
        m.build(text);
        // intervals from the LCP array with a stack
        struct Iv { uint64_t lb, rb, d; };
        std::vector<Iv> all;
        std::vector<Iv> st{{0, 0, 0}};
        for (size_t i = 1; i <= m.n; ++i) {
            uint64_t l = i < m.n ? m.lcp[i] : 0;
            uint64_t lb = i - 1;
            while (st.back().d > l) {
                st.back().rb = i - 1;
                all.push_back(st.back());
                lb = st.back().lb;
                st.pop_back();
            }
            if (st.back().d < l) st.push_back({lb, 0, l});
        }
        if (m.n > 1) all.push_back({0, m.n - 1, 0});
        for (size_t i = 0; i < m.n; ++i) all.push_back({i, i, m.n - m.sa[i]});
        std::sort(all.begin(), all.end(), [](const Iv& a, const Iv& b) { return a.lb != b.lb ? a.lb < b.lb : a.rb > b.rb; });
        leaf.resize(m.n);
        std::vector<size_t> path;
        for (auto& x : all) {
            while (path.size() and v[path.back()].rb < x.lb) path.pop_back();
            size_t id = v.size(), par = path.size() ? path.back() : 0;
            v.push_back({x.lb, x.rb, x.d, par, {}, 0, path.size()});
            if (path.size()) {
                v[id].index = v[par].ch.size();
                v[par].ch.push_back(id);
            }
            by_iv[std::make_pair(x.lb, x.rb)] = id;
            if (x.lb == x.rb) leaf[x.lb] = id;
            path.push_back(id);
        }
    }
    size_t find(uint64_t lb, uint64_t rb) const
    {
        auto it = by_iv.find(std::make_pair(lb, rb));
        return it == by_iv.end() ? v.size() : it->second;
    }
    // node whose interval is the smallest one containing [lb,rb]
    size_t locus(uint64_t lb, uint64_t rb) const
    {
        size_t x = leaf[lb];
        while (v[x].rb < rb) x = v[x].parent;
        return x;
    }
    size_t lca(size_t a, size_t b) const
    {
        return locus(std::min(v[a].lb, v[b].lb), std::max(v[a].rb, v[b].rb));
    }
};
// the library's node w must be node x of the model
template<class Cst> void same_node(const Cst& cst, const TreeModel& t, const typename Cst::node_type& w, size_t x, const char* what, uint64_t a = 0, uint64_t b = 0)
{
    pbt::eq((uint64_t)cst.lb(w), t.v[x].lb, what, a, b);
    pbt::eq((uint64_t)cst.rb(w), t.v[x].rb, what, a, b);
}
typedef sdsl::sa_order_sa_sampling<> SS;
typedef sdsl::isa_sampling<> IS;
namespace cst_types
{
using namespace sdsl;
typedef csa_wt<wt_huff<>, 4, 8> cw;
typedef csa_sada<enc_vector<>, 4, 8> cs;
typedef csa_wt<wt_int<>, 4, 8, SS, IS, int_alphabet<>> cwi;
typedef csa_sada<enc_vector<>, 8, 4, SS, IS, int_alphabet<>> csi;
#if PART == 0
#define CST_LIST(X) \
    X(sct3, 300, (cst_sct3<cw>)) \
    X(sct3_g, 160, (cst_sct3<csa_bitcompressed<>, lcp_bitcompressed<>, bp_support_g<>>)) \
    X(sct3_gg, 160, (cst_sct3<cs, lcp_support_tree<>, bp_support_gg<>, bit_vector, rank_support_v<>, select_support_mcl<>>)) \
    X(sct3_tree2, 160, (cst_sct3<cw, lcp_support_tree2<4>, bp_support_sada<128, 16>>))
#elif PART == 1
#define CST_LIST(X) \
    X(sada, 300, (cst_sada<cs>)) \
    X(sada_g, 160, (cst_sada<cw, lcp_support_tree<>, bp_support_g<>>)) \
    X(sada_gg, 160, (cst_sada<csa_bitcompressed<>, lcp_support_tree2<>, bp_support_gg<>>)) \
    X(sada_byte, 160, (cst_sada<cs, lcp_byte<>, bp_support_sada<64, 4>>))
#elif PART == 2
#define CST_LIST(X) \
    X(fully, 120, (cst_fully<cw>)) \
    X(fully_4, 120, (cst_fully<cs, 4>)) \
    X(fully_leaves, 80, (cst_fully<csa_bitcompressed<>, 6, bp_support_gg<>, bit_vector, dac_vector<2>, true>)) \
    X(fully_int, 80, (cst_fully<cwi, 8>))
#else
#define CST_LIST(X) \
    X(sct3_int, 250, (cst_sct3<csi, lcp_dac<>, bp_support_sada<>, bit_vector, rank_support_v<>>)) \
    X(sct3_sada_int, 120, (cst_sct3<cwi, lcp_support_sada<>, bp_support_gg<>>)) \
    X(sada_int, 200, (cst_sada<cwi, lcp_vlc<>>)) \
    X(sada_bc_int, 120, (cst_sada<csa_bitcompressed<int_alphabet<>>, lcp_wt<>>))
#endif
}
#define UNPAREN(...) __VA_ARGS__
template<class T> struct is_fully { enum { value = 0 }; };
template<class A, uint32_t B, class C, class D, class E, bool F> struct is_fully<sdsl::cst_fully<A, B, C, D, E, F>> { enum { value = 1 }; };
template<class T> struct is_sada { enum { value = 0 }; };
template<class A, class B, class C, class D, class E> struct is_sada<sdsl::cst_sada<A, B, C, D, E>> { enum { value = 1 }; };
