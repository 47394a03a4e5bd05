// C20: balanced parentheses structures and helper algorithms.
#include "pbt.hpp"
#include "gen.hpp"
#include <sdsl/bp_support.hpp>
#include <sdsl/suffix_tree_helper.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <set>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

static vector<char> gen_bp(Src& s, size_t maxpairs)
{
    size_t p = s.len(maxpairs);
    if (p == 0 and s.chance(7, 8)) p = 1 + s.u(8);
    vector<char> b;
    b.reserve(2 * p);
    Rng r(s.seed());
    size_t open = 0, left = p;    // open now, still to open
    auto up = [&](size_t k) {
        for (k = std::min(k, left); k; --k, --left, ++open) b.push_back(1);
    };
    auto down = [&](size_t k) {
        for (k = std::min(k, open); k; --k, --open) b.push_back(0);
    };
    bool root = s.b();
    size_t keep = 0;
    if (root) {
        up(1);
        keep = 1;
    }
    size_t mode = s.u(6);
    uint64_t bias = 1 + s.u(6), unit = s.pick({2, 1, 1, 1, 1}) ;
    static const size_t units[] = {1, 3, 8, 64, 256};
    unit = units[unit];
    bool mix = s.chance(1, 4);
    while (left) {
        size_t m = mix and r.chance(1, 30) ? r.below(7) : mode;
        if (mix) mode = m;
        switch (m) {
            case 0:     // random walk
                if (r.below(8) < bias + 1) up(1);
                else if (open > keep) down(1);
                break;
            case 1: up(left); break;    // deep
            case 2: up(1); down(1); break;   // flat
            case 3: up(1 + r.below(2 * unit)); down(r.below(std::max<size_t>(1, open - keep))); break;
            case 4: up(1 + r.below(2 * unit)); down(std::min(open - keep, (size_t)r.below(2 * unit))); break;   // saw tooth
            case 5: up(2); down(1); break;      // comb
            default: {   // mountains of one size
                size_t h = unit + r.below(3);
                up(h);
                down(std::min(h, open - keep));
            }
        }
    }
    down(open);
    return b;
}
struct BpModel {
    vector<char> b;
    vector<uint64_t> match, encl, ones;   // encl of an opening parenthesis
    vector<int64_t> ex;
    vector<uint64_t> sel;
    size_t n = 0;
    void build(vector<char> x)
    {
        b = std::move(x);
        n = b.size();
        match.assign(n, 0);
        encl.assign(n, n);
        ex.assign(n, 0);
        ones.assign(n, 0);
        vector<size_t> st;
        int64_t e = 0;
        for (size_t i = 0; i < n; ++i) {
            if (b[i]) {
                ++e;
                encl[i] = st.empty() ? n : st.back();
                st.push_back(i);
                sel.push_back(i);
            } else {
                --e;
                match[i] = st.back();
                match[st.back()] = i;
                st.pop_back();
            }
            ex[i] = e;
            ones[i] = sel.size();
        }
    }
    uint64_t rmq_open(size_t l, size_t r) const
    {
        for (size_t i = l; i < r; ++i) if (b[i] and match[i] >= r) return i;
        return n;
    }
    uint64_t rr(size_t i, size_t j) const
    {
        uint64_t res = n;
        for (uint64_t k = encl[j]; k != n and k > match[i]; k = encl[k]) res = k;
        return res;
    }
};
static string shape(const BpModel& m)
{
    return std::to_string(m.n) + " parentheses: " + vec(m.b, 200);
}
static void fill(const BpModel& m, bit_vector& bp, Rng& r)
{
    bp = bit_vector(m.n + 64 + r.below(100), r.chance(1, 2));     // content behind the end must not matter
    bp.resize(m.n);
    for (size_t i = 0; i < m.n; ++i) bp[i] = m.b[i];
}
template<class Bp> struct has_la {
    static const bool value = false;
};
template<uint32_t a, uint32_t b, class R, class S> struct has_la<bp_support_sada<a, b, R, S>> {
    static const bool value = true;
};
template<class Bp> typename std::enable_if<has_la<Bp>::value>::type level(Rng& r, const Bp& s, const BpModel& m, size_t i)
{
    // i opening
    uint64_t depth = m.ex[i] - 1, d = r.chance(1, 2) ? r.upto(depth + 2) : std::min(depth, (uint64_t)r.below(4));
    uint64_t k = i;
    for (uint64_t x = 0; x < d and k != m.n; ++x) k = m.encl[k];
    eq((uint64_t)s.level_anc(i, d), k, "level_anc", i, d);
}
template<class Bp> typename std::enable_if<!has_la<Bp>::value>::type level(Rng&, const Bp&, const BpModel&, size_t) {}

template<class Bp> void run(Src& s, Ctx& c)
{
    BpModel m;
    m.build(gen_bp(s, s.chance(1, 6) ? 20000 : 900));
    Rng r(s.seed());
    bit_vector bp;
    fill(m, bp, r);
    int64_t maxex = 0;
    for (auto e : m.ex) maxex = std::max(maxex, e);
    c.nt(m.n > 8 and maxex > 1);
    c.label(m.n > 1700 ? "more than two blocks" : m.n > 256 ? "several small blocks" : "small");
    c.label(maxex > 200 ? "deep" : maxex > 10 ? "medium depth" : "flat");
    c.describe([&]() {
        return shape(m);
    });
    Bp a(&bp), s2;
    const Bp* w = &a;
    if (s.chance(1, 4)) {
        s2 = a;
        s2.set_vector(&bp);
        w = &s2;
    }
    auto& x = *w;
    size_t n = m.n;
    eq((uint64_t)x.size(), n, "size");
    // positions
    vector<size_t> pos;
    if (n <= 900) for (size_t i = 0; i < n; ++i) pos.push_back(i);
    else for (size_t k = 0; k < 900; ++k) pos.push_back(k < 20 ? k : k < 40 ? n - 1 - (k - 20) : r.below(n));
    for (auto i : pos) {
        eq((uint64_t)x.excess(i), m.ex[i], "excess", i);
        eq((uint64_t)x.rank(i), m.ones[i], "rank", i);
        if (m.b[i]) eq((uint64_t)x.select(m.ones[i]), i, "select", m.ones[i]);
        eq((uint64_t)x.find_close(i), m.b[i] ? m.match[i] : i, "find_close", i);
        eq((uint64_t)x.find_open(i), m.b[i] ? i : m.match[i], "find_open", i);
        eq((uint64_t)x.enclose(i), m.b[i] ? m.encl[i] : m.match[i], "enclose", i);
        uint64_t pc = 0;
        for (size_t k = i; k and !m.b[k - 1]; --k) ++pc;
        eq((uint64_t)x.preceding_closing_parentheses(i), pc, "preceding_closing_parentheses", i);
        if (m.b[i]) level(r, x, m, i);
    }
    if (n == 0) return;
    // pairs
    size_t tested = 0, found = 0;
    for (int q = 0; q < 400; ++q) {
        size_t i = r.below(n), j = r.below(n);
        if (r.chance(1, 2)) j = std::min<size_t>(n - 1, i + r.below(r.chance(1, 2) ? 20 : 700));
        if (i > j) std::swap(i, j);
        // minimal excess
        uint64_t p = x.rmq(i, j);
        if (p < i or p > j) req(false, "rmq out of the range", i, j, p);
        int64_t mn = m.ex[i];
        for (size_t k = i; k <= j; ++k) mn = std::min(mn, m.ex[k]);
        if (m.ex[p] != mn) req(false, "rmq is not a position of minimal excess", i, j, p);
        size_t e = r.chance(1, 10) ? n : j;
        eq((uint64_t)x.rmq_open(i, e), m.rmq_open(i, e), "rmq_open", i, e);
        // range restricted enclose: two pairs, one after the other
        if (!m.b[i]) i = m.match[i];
        if (!m.b[j]) j = m.match[j];
        if (i > j) std::swap(i, j);
        if (m.match[i] > j and i != j) {
            // j is below i: take a pair inside i before j, if there is one
            size_t k = i + 1 + r.below(j - i);
            if (!m.b[k]) k = m.match[k];
            if (k > i) i = k;
        }
        if (i > j) std::swap(i, j);
        if (i == j or m.match[i] > j) continue;
        ++tested;
        uint64_t k = m.rr(i, j);
        if (k != n) ++found;
        eq((uint64_t)x.rr_enclose(i, j), k, "rr_enclose", i, j);
        eq((uint64_t)x.rr_enclose_naive(i, j), k, "rr_enclose_naive", i, j);
        eq((uint64_t)x.double_enclose(i, j), m.encl[k == n ? j : k], "double_enclose", i, j);
    }
    if (tested) c.label("enclose of pairs");
    if (found) c.label("range restricted enclose found");
}

template<uint32_t bs> using G = bp_support_g<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, range_maximum_support_sparse_table<>, bs>;
template<uint32_t bs> using GG = bp_support_gg<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, bs>;
typedef bp_support_sada<32, 4, rank_support_v<>, select_support_scan<>> SADA_32_4;
typedef bp_support_sada<64, 2> SADA_64_2;
typedef bp_support_sada<8, 3> SADA_8_3;
typedef bp_support_sada<100, 5> SADA_100_5;
typedef bp_support_sada<1, 2> SADA_1_2;
typedef bp_support_sada<1024, 64> SADA_1024_64;
typedef bp_support_g<nearest_neighbour_dictionary<7>, rank_support_v<>, select_support_scan<>, range_maximum_support_sparse_table<>, 37> G_37;
typedef bp_support_gg<nearest_neighbour_dictionary<5>, rank_support_scan<>, select_support_scan<>, 20> GG_20;

#define BP(T) TARGET(#T, 180) { run<T>(s, c); }
#if PART == 0
typedef bp_support_sada<> SADA;
BP(SADA)
BP(SADA_32_4)
BP(SADA_64_2)
BP(SADA_8_3)
BP(SADA_100_5)
BP(SADA_1_2)
BP(SADA_1024_64)
#elif PART == 1
typedef bp_support_g<> G_840;
typedef G<64> G_64;
typedef G<16> G_16;
typedef G<3> G_3;
typedef G<41> G_41;
BP(G_840)
BP(G_64)
BP(G_16)
BP(G_3)
BP(G_41)
BP(G_37)
#else
typedef bp_support_gg<> GG_840;
typedef GG<64> GG_64;
typedef GG<16> GG_16;
typedef GG<3> GG_3;
typedef GG<41> GG_41;
BP(GG_840)
BP(GG_64)
BP(GG_16)
BP(GG_3)
BP(GG_41)
BP(GG_20)

// helper algorithms
TARGET("pioneers", 700)
{
    BpModel m;
    m.build(gen_bp(s, s.chance(1, 8) ? 6000 : 500));
    Rng r(s.seed());
    bit_vector bp;
    fill(m, bp, r);
    size_t n = m.n;
    uint64_t bs = s.pick({1, 1, 1}) == 0 ? 1 + s.u(20) : s.b() ? 8 * (1 + s.u(20)) : 1 + s.u(1000);
    c.nt(n > bs);
    c.describe([&]() {
        return "block size " + std::to_string(bs) + ", " + shape(m);
    });
    vector<char> want(n, 0);
    // of all pairs that connect the same two different blocks, the outermost one is a pioneer
    std::set<std::pair<size_t, size_t>> seen;
    for (size_t i = 0; i < n; ++i) if (m.b[i] and i / bs != m.match[i] / bs and seen.insert({i / bs, m.match[i] / bs}).second) want[i] = want[m.match[i]] = 1;
    bit_vector got = calculate_pioneers_bitmap(bp, bs), got2 = calculate_pioneers_bitmap_succinct(bp, bs);
    eq((uint64_t)got.size(), n, "size of calculate_pioneers_bitmap");
    eq((uint64_t)got2.size(), n, "size of calculate_pioneers_bitmap_succinct");
    for (size_t i = 0; i < n; ++i) {
        eq((uint64_t)got[i], want[i], "calculate_pioneers_bitmap", i, bs);
        eq((uint64_t)got2[i], want[i], "calculate_pioneers_bitmap_succinct", i, bs);
    }
    int_vector<> mt, en;
    calculate_matches(bp, mt);
    calculate_enclose(bp, en);
    eq((uint64_t)mt.size(), n, "size of calculate_matches");
    eq((uint64_t)en.size(), n, "size of calculate_enclose");
    for (size_t i = 0; i < n; ++i) {
        eq((uint64_t)mt[i], m.match[i], "calculate_matches", i);
        eq((uint64_t)en[i], m.b[i] ? m.encl[i] : m.match[i], "calculate_enclose", i);
    }
    // searches within a block
    for (int q = 0; q < 300 and n; ++q) {
        size_t i = r.below(n);
        if (m.b[i]) {
            uint64_t end = ((i + 1) / bs + 1) * bs;
            eq((uint64_t)near_find_close(bp, i, bs), m.match[i] < end ? m.match[i] : i, "near_find_close", i, bs);
        } else {
            uint64_t begin = (i - 1) / bs * bs;
            eq((uint64_t)near_find_open(bp, i, bs), m.match[i] >= begin ? m.match[i] : i, "near_find_open", i, bs);
        }
        // excess searches: target excess near the one at the start
        int64_t rel = (int64_t)r.below(r.chance(1, 3) ? 40 : 5) - (int64_t)r.below(r.chance(1, 3) ? 40 : 5);
        {
            uint64_t end = std::min<uint64_t>(n, (i / bs + 1) * bs), found = i - 1;
            int64_t e = (i ? m.ex[i - 1] : 0) + rel;
            for (size_t k = i; k < end; ++k) if (m.ex[k] == e) {
                    found = k;
                    break;
                }
            if (end == (i / bs + 1) * bs) eq((uint64_t)near_fwd_excess(bp, i, rel, bs), found, "near_fwd_excess", i, rel, bs);
        }
        if (i + 1 < n) {
            int64_t e = m.ex[i + 1] + rel;
            int64_t begin = i / bs * bs, k = i;
            while (k >= begin - 1 and (k < 0 ? 0 : m.ex[k]) != e) --k;
            if (e >= 0) eq((uint64_t)near_bwd_excess(bp, i, rel, bs), k < begin - 1 ? i + 1 : (uint64_t)k, "near_bwd_excess", i, rel, bs);
        }
        size_t j = std::min<size_t>(n - 1, i + r.below(r.chance(1, 2) ? 30 : 600));
        bit_vector::difference_type mrel = 12345;
        uint64_t p = near_rmq(bp, i, j, mrel);
        int64_t mn = m.ex[i];
        uint64_t w = i;
        for (size_t k = i; k <= j; ++k) if (m.ex[k] <= mn) {
                mn = m.ex[k];
                w = k;
            }
        eq(p, w, "near_rmq", i, j);
        eq((uint64_t)mrel, (uint64_t)(mn - m.ex[i]), "relative excess of near_rmq", i, j);
        uint64_t o = m.rmq_open(i, j);
        if (i < j) eq((uint64_t)near_rmq_open(bp, i, j), o == n ? j : o, "near_rmq_open", i, j);
    }
}
TARGET("supercartesian", 600)
{
    size_t n = s.len(3000);
    Rng r(s.seed());
    uint64_t top = s.pick({2, 2, 1}) == 0 ? s.u(4) : s.b() ? s.u(60) : s.u(1000000);
    int_vector<> v(n, 0, 1 + s.u(62));
    uint64_t mask = v.width() >= 64 ? ~0ULL : (1ULL << v.width()) - 1;
    size_t mode = s.u(4);
    for (size_t i = 0, k = 0; i < n; ++i) {
        if (mode == 0) v[i] = r.upto(top) & mask;
        else if (mode == 1) v[i] = std::min<uint64_t>(k += r.below(2), mask);
        else if (mode == 2) v[i] = std::min<uint64_t>((n - i) / (1 + top % 7), mask);
        else v[i] = ((i % (top + 1)) * (r.chance(1, 9) ? 0 : 1)) & mask;
    }
    if (s.b()) for (size_t i = 0; i < n; ++i) v[i] = v[i] % n;    // as lcp values
    bool mini = s.b();
    c.nt(n > 2);
    c.describe([&]() {
        return string(mini ? "minimum " : "maximum ") + vec(v, 200);
    });
    vector<uint64_t> st;
    vector<char> want, fc;
    auto pop = [&]() {
        uint64_t t = st.back();
        st.pop_back();
        want.push_back(0);
        fc.push_back(st.empty() or st.back() != t);   // popped the lowest of equal entries
    };
    bool lcp = true;
    for (size_t i = 0; i < n; ++i) {
        uint64_t x = v[i];
        if (x >= n) lcp = false;
        while (st.size() and (mini ? x < st.back() : x > st.back())) pop();
        st.push_back(x);
        want.push_back(1);
    }
    while (st.size()) pop();
    auto same = [&](const bit_vector& b, const vector<char>& w, const char* what) {
        eq((uint64_t)b.size(), w.size(), what);
        for (size_t i = 0; i < w.size(); ++i) eq((uint64_t)b[i], w[i], what, i);
    };
    bit_vector b1(7, 1);
    construct_supercartesian_tree_bp(v, b1, mini);
    same(b1, want, "construct_supercartesian_tree_bp");
    same(construct_supercartesian_tree_bp_succinct(v, mini), want, "construct_supercartesian_tree_bp_succinct");
    if (lcp) {
        c.label("as lcp array");
        string f = scratch() + "c20lcp";
        store_to_file(v, f);
        {
            int_vector_buffer<> buf(f, std::ios::in);
            same(construct_supercartesian_tree_bp_succinct(buf, mini), want, "construct_supercartesian_tree_bp_succinct of a buffer");
            bit_vector b2(3, 1), b3(9, 1);
            uint64_t cnt = construct_supercartesian_tree_bp_succinct_and_first_child(buf, b2, b3, mini), k = 0;
            same(b2, want, "construct_supercartesian_tree_bp_succinct_and_first_child");
            same(b3, fc, "first child bits");
            for (auto x : fc) k += x;
            eq(cnt, k, "number of first children");
        }
        sdsl::remove(f);
    }
}
#endif
