// C13: wavelet tree range and order queries equal brute force; node navigation partitions positions and symbols.
#include "wtcommon.hpp"
#include <sdsl/wt_algorithm.hpp>
#include <queue>
#include <map>

enum { LEX = 1, PC = 2, R2D = 4 };

struct Model {
    vector<uint64_t> v, al;
    uint64_t max, maxsym;
    uint64_t tmask;
    uint64_t symbol(Rng& r) const   // some symbol to query: present, neighbouring, random, beyond the largest
    {
        uint64_t c;
        switch (r.below(8)) {
            case 0: c = r.upto(max); break;
            case 1: c = al[r.below(al.size())] + 1; break;
            case 2: c = al[r.below(al.size())] - 1; break;
            case 3: c = r.next() >> r.below(64); break;
            case 4: c = 1ULL << (bits::hi(al.back()) + 1) % 64; break;
            case 5: c = (r.below(2) ? al.front() : al.back()); break;
            default: c = al[r.below(al.size())];
        }
        return c & tmask;
    }
    void range(Rng& r, uint64_t& i, uint64_t& j) const   // i<=j<=n
    {
        uint64_t n = v.size();
        i = r.upto(n);
        switch (r.below(6)) {
            case 0: j = std::min(n, i + r.below(4)); break;
            case 1: j = n; break;
            case 2: i = 0; j = n; break;
            case 3: j = std::min(n, i + r.below(70)); break;
            default: j = i + r.upto(n - i);
        }
    }
};

template<class W> void interval(const W& wt, const Model& m, Rng& r, bool lex)
{
    typedef typename W::value_type vt;
    uint64_t sg = m.al.size();
    for (int k = 0; k < 40; ++k) {
        uint64_t i, j;
        m.range(r, i, j);
        typename W::size_type cnt = r.below(100);
        vector<vt> cs(sg);
        vector<typename W::size_type> ri(sg), rj(sg);
        interval_symbols(wt, i, j, cnt, cs, ri, rj);
        std::map<uint64_t, uint64_t> want;
        for (uint64_t p = i; p < j; ++p) ++want[m.v[p]];
        eq(cnt, want.size(), "interval_symbols: number of symbols", i, j);
        std::map<uint64_t, uint64_t> before;
        for (uint64_t p = 0; p < i; ++p) ++before[m.v[p]];
        for (uint64_t x = 0; x < cnt; ++x) {
            auto it = want.find(cs[x]);
            req(it != want.end(), "interval_symbols: symbol not in the interval (or twice)", i, j, cs[x]);
            eq(ri[x], before[cs[x]], "interval_symbols: rank at i", i, j, cs[x]);
            eq(rj[x], before[cs[x]] + it->second, "interval_symbols: rank at j", i, j, cs[x]);
            want.erase(it);
            if (lex and x) req(cs[x - 1] < cs[x], "interval_symbols: not ascending", i, j, x);
        }
    }
}

template<class W> void lex_queries(const W& wt, const Model& m, Rng& r, std::true_type)
{
    const auto& v = m.v;
    uint64_t n = v.size();
    for (int k = 0; k < 60; ++k) {
        uint64_t i, j, c = m.symbol(r);
        m.range(r, i, j);
        uint64_t lt = 0, gt = 0, rk = 0, slt = 0;
        for (uint64_t p = 0; p < i; ++p) {
            rk += v[p] == c;
            slt += v[p] < c;
        }
        for (uint64_t p = i; p < j; ++p) {
            lt += v[p] < c;
            gt += v[p] > c;
        }
        auto t = wt.lex_count(i, j, c);
        eq(std::get<0>(t), rk, "lex_count: rank", i, j, c);
        eq(std::get<1>(t), lt, "lex_count: smaller", i, j, c);
        eq(std::get<2>(t), gt, "lex_count: greater", i, j, c);
        auto t2 = wt.lex_smaller_count(i, c);
        eq(std::get<0>(t2), rk, "lex_smaller_count: rank", i, c);
        eq(std::get<1>(t2), slt, "lex_smaller_count: smaller", i, c);
        // neighbours in the alphabet
        auto g = symbol_gte(wt, c);
        auto it = std::lower_bound(m.al.begin(), m.al.end(), c);
        eq(g.first, it != m.al.end(), "symbol_gte: found", c);
        if (g.first) eq(g.second, *it, "symbol_gte", c);
        auto l = symbol_lte(wt, c);
        it = std::upper_bound(m.al.begin(), m.al.end(), c);
        eq(l.first, it != m.al.begin(), "symbol_lte: found", c);
        if (l.first) eq(l.second, *(it - 1), "symbol_lte", c);
    }
    for (int k = 0; k < 30; ++k) {
        uint64_t i, j;
        m.range(r, i, j);
        if (i == j) continue;
        vector<uint64_t> x(v.begin() + i, v.begin() + j);
        std::sort(x.begin(), x.end());
        uint64_t q = r.below(j - i);
        auto a = quantile_freq(wt, i, j - 1, q);
        eq(a.first, x[q], "quantile_freq: value", i, j - 1, q);
        eq(a.second, std::count(x.begin(), x.end(), x[q]), "quantile_freq: frequency", i, j - 1, q);
        uint64_t a0 = m.symbol(r), b0 = m.symbol(r);
        if (r.below(8)) if (a0 > b0) std::swap(a0, b0);
        uint64_t xj = r.below(10) ? j - 1 : j + r.below(5) + (n - j);
        auto u = restricted_unique_range_values(wt, i, xj, a0, b0);
        vector<uint64_t> want;
        for (uint64_t p = i; p <= xj and p < n; ++p) if (v[p] >= a0 and v[p] <= b0) want.push_back(v[p]);
        std::sort(want.begin(), want.end());
        want.erase(std::unique(want.begin(), want.end()), want.end());
        eq(u.size(), want.size(), "restricted_unique_range_values: count", i, xj, a0);
        for (uint64_t p = 0; p < want.size(); ++p) eq(u[p], want[p], "restricted_unique_range_values", i, xj, p);
    }
}
template<class W> void lex_queries(const W&, const Model&, Rng&, std::false_type) {}

template<class W> void range2d(const W& wt, const Model& m, Rng& r, std::true_type)
{
    const auto& v = m.v;
    for (int k = 0; k < 40; ++k) {
        uint64_t i, j, a = m.symbol(r), b = m.symbol(r);
        m.range(r, i, j);
        if (i == j) continue;
        if (a > b and r.below(8)) std::swap(a, b);
        vector<std::pair<uint64_t, uint64_t>> want;
        for (uint64_t p = i; p < j; ++p) if (v[p] >= a and v[p] <= b) want.emplace_back(p, v[p]);
        auto g = wt.range_search_2d(i, j - 1, a, b);
        eq(g.first, want.size(), "range_search_2d: count", i, j - 1, a);
        eq(g.second.size(), want.size(), "range_search_2d: reported", i, j - 1, a);
        vector<std::pair<uint64_t, uint64_t>> got(g.second.begin(), g.second.end());
        std::sort(got.begin(), got.end());
        for (uint64_t x = 0; x < got.size(); ++x) {
            eq(got[x].first, want[x].first, "range_search_2d: position", i, j - 1, x);
            eq(got[x].second, want[x].second, "range_search_2d: value", i, j - 1, x);
        }
        g = wt.range_search_2d(i, j - 1, a, b, false);
        eq(g.first, want.size(), "range_search_2d: count only", i, j - 1, a);
        eq(g.second.size(), 0, "range_search_2d: points although report=false");
    }
}
template<class W> void range2d(const W&, const Model&, Rng&, std::false_type) {}

template<class W> void ranges_queries(const W& wt, const Model& m, Rng& r)
{
    const auto& v = m.v;
    for (int k = 0; k < 20; ++k) {
        vector<range_type> rs;
        std::map<uint64_t, std::pair<uint64_t, uint64_t>> cnt; // value -> (number of ranges, frequency)
        uint64_t R = 1 + r.below(5);
        for (uint64_t x = 0; x < R; ++x) {
            uint64_t i, j;
            m.range(r, i, j);
            if (i == j) {
                i = r.below(v.size());
                j = i + 1;
            }
            rs.push_back({{i, j - 1}});
            std::map<uint64_t, uint64_t> f;
            for (uint64_t p = i; p < j; ++p) ++f[v[p]];
            for (auto& y : f) {
                cnt[y.first].first++;
                cnt[y.first].second += y.second;
            }
        }
        uint64_t t = r.below(3) ? 0 : 1 + r.below(R);
        auto got = intersect(wt, rs, t);
        uint64_t tt = t ? t : R;
        vector<std::pair<uint64_t, uint64_t>> want, g(got.begin(), got.end());
        for (auto& y : cnt) if (y.second.first >= tt) want.emplace_back(y.first, y.second.second);
        eq(g.size(), want.size(), "intersect: number of values", R, t);
        if (W::lex_ordered) for (uint64_t x = 1; x < g.size(); ++x) req(g[x - 1].first < g[x].first, "intersect: not ordered", x);
        std::sort(g.begin(), g.end());
        for (uint64_t x = 0; x < g.size(); ++x) {
            eq(g[x].first, want[x].first, "intersect: value", R, t, x);
            eq(g[x].second, want[x].second, "intersect: frequency", R, t, x);
        }
    }
    // greedy top-k: the k most frequent symbols of an interval by expanding nodes in decreasing range size
    typedef typename W::node_type node;
    for (int k = 0; k < 10; ++k) {
        uint64_t i, j;
        m.range(r, i, j);
        if (i == j) continue;
        typedef std::pair<uint64_t, std::pair<node, range_type>> item;
        auto cmp = [](const item & a, const item & b) {
            return a.first < b.first;
        };
        std::priority_queue<item, vector<item>, decltype(cmp)> q(cmp);
        range_type r0 = {{i, j - 1}};
        q.push(item(j - i, std::make_pair(wt.root(), r0)));
        vector<uint64_t> got;
        std::map<uint64_t, uint64_t> f;
        for (uint64_t p = i; p < j; ++p) ++f[v[p]];
        uint64_t K = 1 + r.below(6);
        while (!q.empty() and got.size() < K) {
            auto x = q.top();
            q.pop();
            if (wt.is_leaf(x.second.first)) {
                uint64_t c = wt.sym(x.second.first);
                req(f.count(c), "top-k: symbol not in range", i, j, c);
                eq(x.first, f[c], "top-k: frequency", i, j, c);
                got.push_back(x.first);
                continue;
            }
            auto ch = wt.expand(x.second.first);
            auto cr = wt.expand(x.second.first, x.second.second);
            for (int y = 0; y < 2; ++y) if (!empty(cr[y])) q.push(item(size(cr[y]), std::make_pair(ch[y], cr[y])));
        }
        vector<uint64_t> want;
        for (auto& y : f) want.push_back(y.second);
        std::sort(want.rbegin(), want.rend());
        eq(got.size(), std::min<uint64_t>(K, want.size()), "top-k: number of symbols", i, j);
        for (uint64_t x = 0; x < got.size(); ++x) eq(got[x], want[x], "top-k: frequency order", i, j, x);
    }
}

template<class W> void walk(const W& wt, const typename W::node_type& v, const vector<uint64_t>& list, Rng& r, std::map<uint64_t, int>& leaves, uint64_t lo, uint64_t hi, size_t depth, size_t& budget)
{
    eq(wt.size(v), list.size(), "node size", depth);
    eq(wt.empty(v), list.empty(), "empty(node)", depth);
    uint64_t n = list.size();
    for (auto x : list) req(x >= lo and x <= hi, "lex ordered tree: symbol in the wrong subtree", x, lo, hi);
    if (wt.is_leaf(v)) {
        for (auto x : list) eq(wt.sym(v), x, "symbol of the leaf", depth);
        if (n) {
            req(++leaves[wt.sym(v)] == 1, "symbol with two leaves", wt.sym(v));
        }
        return;
    }
    if (n == 0) return;
    auto sq = wt.seq(v);
    auto bv = wt.bit_vec(v);
    eq(sq.size(), n, "seq(v).size()", depth);
    eq(bv.size(), n, "bit_vec(v).size()", depth);
    vector<uint64_t> part[2];
    vector<uint64_t> before(n + 1, 0);
    for (uint64_t i = 0; i < n; ++i) {
        bool b = bv[i];
        part[b].push_back(list[i]);
        before[i + 1] = before[i] + b;
    }
    for (int k = 0; k < 5; ++k) {
        uint64_t i = r.below(n);
        eq(sq[i], list[i], "seq(v)[i]", depth, i);
    }
    auto ch = wt.expand(v);
    auto child_range = [&](const range_type & x, int b) { // expected
        uint64_t ones0 = before[x[0]], ones1 = before[x[1] + 1];
        range_type y;
        if (b) y = {{ones0, ones1 - 1}};
        else y = {{x[0] - ones0, x[1] + 1 - ones1 - 1}};
        return y;
    };
    vector<range_type> rs;
    for (int k = 0; k < 3; ++k) {
        uint64_t i = r.below(n), j = i + r.below(n - i);
        range_type x = {{i, j}};
        rs.push_back(x);
        auto cr = wt.expand(v, x);
        for (int b = 0; b < 2; ++b) {
            auto y = child_range(x, b);
            eq(empty(cr[b]), y[1] + 1 == y[0], "expand(v,range): emptiness", i, j, b);
            eq(size(cr[b]), y[1] + 1 - y[0], "expand(v,range): size", i, j, b);
            eq(cr[b][0], y[0], "expand(v,range): start", i, j, b);
        }
    }
    auto crs = wt.expand(v, rs);
    for (int b = 0; b < 2; ++b) {
        eq(crs[b].size(), rs.size(), "expand(v,ranges): count");
        for (size_t k = 0; k < rs.size(); ++k) {
            auto y = child_range(rs[k], b);
            eq(crs[b][k][0], y[0], "expand(v,ranges): start", k, b);
            eq(crs[b][k][1], y[1], "expand(v,ranges): end", k, b);
        }
    }
    for (int b = 0; b < 2; ++b) {
        if (budget == 0) return;
        --budget;
        uint64_t l2 = lo, h2 = hi;
        if (W::lex_ordered) {
            if (b == 0 and part[1].size()) h2 = *std::min_element(part[1].begin(), part[1].end()) - 1;
            if (b == 1 and part[0].size()) l2 = *std::max_element(part[0].begin(), part[0].end()) + 1;
        }
        walk(wt, ch[b], part[b], r, leaves, l2, h2, depth + 1, budget);
    }
}

template<class W, int F> void run(Src& s, Ctx& c, const char* name, uint64_t maxsym)
{
    Model m;
    m.maxsym = maxsym;
    m.tmask = W::alphabet_category::WIDTH == 8 ? 255 : ~0ULL;
    m.max = s.chance(1, 3) ? maxsym : std::min<uint64_t>(maxsym, s.val(bits::hi(maxsym) + 1));
    m.v = wt_seq(s, s.chance(1, 12) ? 4000 : 600, m.max);
    size_t n = m.v.size();
    c.describe([&] { return string(name) + " seq " + vec(m.v); });
    m.al = m.v;
    std::sort(m.al.begin(), m.al.end());
    m.al.erase(std::unique(m.al.begin(), m.al.end()), m.al.end());
    c.nt(m.al.size() > 1);
    if (m.al.size() == 1) c.label("one symbol");
    W wt;
    wt_build(wt, m.v, s, c);
    Rng r(s.seed());
    if (n == 0) {
        c.label("empty");
        return;
    }
    size_t what = s.u(3);
    if (what == 0) {
        c.label("interval_symbols");
        interval(wt, m, r, W::lex_ordered);
    } else if (what == 1) {
        if (F & LEX) c.label("lex queries");
        lex_queries(wt, m, r, std::integral_constant<bool, (F & LEX) != 0>());
        if (F & R2D) c.label("2d queries");
        range2d(wt, m, r, std::integral_constant<bool, (F & R2D) != 0>());
    } else if (what == 2) {
        c.label("intersect, top-k");
        ranges_queries(wt, m, r);
    } else {
        c.label("node navigation");
        std::map<uint64_t, int> leaves;
        size_t budget = 3000, b0 = budget;
        walk(wt, wt.root(), m.v, r, leaves, 0, ~0ULL, 0, budget);
        if (budget) eq(leaves.size(), m.al.size(), "number of non-empty leaves");
        (void)b0;
        // path(c) leads to the leaf of c
        for (int k = 0; k < 20; ++k) {
            uint64_t ch = m.al[r.below(m.al.size())];
            if ((F & PC) and m.al.size() == 1) continue;
            auto p = wt.path(ch);
            auto v = wt.root();
            for (uint64_t x = 0; x < p.first; ++x) {
                req(!wt.is_leaf(v), "path(c) is too long", ch, x);
                v = wt.expand(v)[(p.second >> (p.first - 1 - x)) & 1];
            }
            req(wt.is_leaf(v), "path(c) does not end in a leaf", ch);
            eq(wt.sym(v), ch, "path(c) leads to another symbol");
        }
    }
}
#define WT(type, flags, label, maxsym, weight) TARGET(label, weight) { run<type, flags>(s, c, label, maxsym); }
#if PART==0
WT(wpb_t, LEX | PC, "wt_pc_balanced", 255, 200)
WT(wt_blcd<>, LEX | PC, "wt_blcd", 255, 250)
WT(wt_hutu<>, LEX | PC, "wt_hutu", 255, 300)
#elif PART==1
WT(wt_huff<>, PC, "wt_huff", 255, 250)
WT(hutu_rrr_t, LEX | PC, "wt_hutu_rrr15", 255, 80)
WT(huff_int_t, PC, "wt_huff_int", 6000, 120)
#elif PART==2
WT(blcd_int_t, LEX | PC, "wt_blcd_int", 6000, 150)
WT(hutu_int_t, LEX | PC, "wt_hutu_int", 6000, 150)
#elif PART==3
WT(wtint_t, LEX | R2D, "wt_int", ~0ULL, 300)
WT(wtint_t, LEX | R2D, "wt_int_small", 1000, 300)
WT(wtint_rrr_t, LEX | R2D, "wt_int_rrr63", 5000, 80)
#elif PART==4
WT(wmint_t, R2D, "wm_int", ~0ULL, 300)
WT(wmint_t, R2D, "wm_int_small", 1000, 300)
WT(wmint_rrr_t, R2D, "wm_int_rrr15", 5000, 80)
#endif
