// C17: pattern search finds all and only the occurrences.
#include "csacommon.hpp"
#include <sdsl/suffix_trees.hpp>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

static vector<uint64_t> pattern(Src& s, const TextModel& m, uint64_t symmax, const char*& kind)
{
    vector<uint64_t> p;
    size_t n = m.n - 1;
    auto sub = [&](size_t maxlen) {
        if (!n) return;
        size_t b = s.u(n - 1), l = 1 + s.len(std::min(maxlen, n - b) - 1);
        p.assign(m.t.begin() + b, m.t.begin() + b + l);
    };
    switch (s.pick({1, 8, 4, 4, 3, 1, 1, 2, 2})) {
        case 0: kind = "empty"; break;
        case 1: kind = "substring"; sub(s.b() ? 6 : n); break;
        case 2: // substring with one symbol changed
            kind = "mutated substring";
            sub(20);
            if (p.size()) p[s.u(p.size() - 1)] = m.t[s.u(n - 1)];
            break;
        case 3: // random over the symbols of the text
            kind = "random over the alphabet";
            for (size_t k = 1 + s.len(6); k-- and n;) p.push_back(m.t[s.u(n - 1)]);
            break;
        case 4: // with foreign symbols
            kind = "with foreign symbols";
            sub(8);
            for (size_t k = 1 + s.u(1); k--;) p.insert(p.begin() + s.u(p.size()), 1 + s.u(symmax - 1));
            break;
        case 5: kind = "whole text"; p.assign(m.t.begin(), m.t.end() - 1); break;
        case 6: // longer than the text
            kind = "longer than the text";
            p.assign(m.t.begin(), m.t.end() - 1);
            for (size_t k = 1 + s.u(3); k--;) p.push_back(n ? m.t[s.u(n - 1)] : 1 + s.u(symmax - 1));
            if (s.b()) std::rotate(p.begin(), p.begin() + s.u(p.size() - 1), p.end());
            break;
        case 7: // suffix of the text, possibly followed by its beginning
            kind = "suffix (wrapping around)";
            if (n) {
                size_t l = 1 + s.len(std::min<size_t>(n, 30) - 1);
                p.assign(m.t.end() - 1 - l, m.t.end() - 1);
                if (s.b()) p.insert(p.end(), m.t.begin(), m.t.begin() + 1 + s.u(std::min<size_t>(n, 5) - 1));
            }
            break;
        default: // repeated symbol
            kind = "repeated symbol";
            p.assign(1 + s.len(20), n ? m.t[s.u(n - 1)] : 1 + s.u(symmax - 1));
    }
    return p;
}
template<class T> uint64_t max_sym(const TextModel& m)
{
    return index_is_byte<T>::value ? 255 : *std::max_element(m.t.begin(), m.t.end()) + 3;
}
template<class R> void same_positions(const R& got, const TextModel& m, size_t lo, size_t hi, const char* what)
{
    vector<uint64_t> a(got.begin(), got.end()), b(m.sa.begin() + lo, m.sa.begin() + hi);
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    eq((uint64_t)a.size(), (uint64_t)b.size(), what);
    for (size_t i = 0; i < a.size(); ++i) eq(a[i], b[i], what, i);
}
// queries offered for both suffix arrays and suffix trees
template<class T> void common(const T& idx, const TextModel& m, const vector<uint64_t>& p, size_t lo, size_t hi)
{
    auto str = index_string(idx, p);
    eq((uint64_t)count(idx, str), (uint64_t)(hi - lo), "count(pattern)");
    eq((uint64_t)count(idx, str.begin(), str.end()), (uint64_t)(hi - lo), "count(begin,end)");
    same_positions(locate(idx, str), m, lo, hi, "locate(pattern)");
    same_positions(locate(idx, p.begin(), p.end()), m, lo, hi, "locate(begin,end)");
    auto v = locate<T, vector<uint64_t>>(idx, str);
    same_positions(v, m, lo, hi, "locate<vector>(pattern)");
}
template<class Csa> void run(Src& s, Ctx& c)
{
    auto text = index_text<Csa>(s, c, s.chance(1, 6) ? 2500 : 300);
    TextModel m;
    m.build(text);
    Csa csa;
    index_build(csa, text);
    uint64_t symmax = max_sym<Csa>(m);
    for (int k = 0; k < 14; ++k) {
        const char* kind = "";
        auto p = pattern(s, m, symmax, kind);
        c.describe([&] { return string("pattern ") + vec(p); });
        auto iv = m.interval(p);
        size_t lo = iv.first, hi = iv.second;
        c.label(kind);
        c.label(hi > lo ? "occurs" : "does not occur");
        if (hi > lo and p.size() > 1) c.nt(true);
        auto str = index_string(csa, p);
        common(csa, m, p, lo, hi);
        auto li = lex_interval(csa, str.begin(), str.end());
        eq((uint64_t)(li[1] + 1 - li[0]), (uint64_t)(hi - lo), "size of lex_interval");
        if (hi > lo) eq((uint64_t)li[0], (uint64_t)lo, "begin of lex_interval");
        typename Csa::size_type l = 77, r = 77;
        eq((uint64_t)backward_search(csa, 0, m.n - 1, str.begin(), str.end(), l, r), (uint64_t)(hi - lo), "backward_search");
        eq((uint64_t)(r + 1 - l), (uint64_t)(hi - lo), "interval of backward_search");
        if (hi > lo) eq((uint64_t)l, (uint64_t)lo, "left border of backward_search");
        l = r = 77;
        eq((uint64_t)forward_search(csa, 0, m.n - 1, str.begin(), str.end(), l, r), (uint64_t)(hi - lo), "forward_search");
        eq((uint64_t)(r + 1 - l), (uint64_t)(hi - lo), "interval of forward_search");
        if (hi > lo) eq((uint64_t)l, (uint64_t)lo, "left border of forward_search");
        // forward search within a smaller interval
        size_t sl = s.u(m.n - 1), sr = sl + s.u(m.n - 1 - sl);
        size_t wl = std::max(lo, sl), wr = std::max(wl, std::min(hi, sr + 1));
        l = r = 77;
        eq((uint64_t)forward_search(csa, sl, sr, str.begin(), str.end(), l, r), (uint64_t)(wr - wl), "forward_search in an interval", sl, sr);
        if (wr > wl) eq((uint64_t)l, (uint64_t)wl, "left border of forward_search in an interval", sl, sr);
        if (p.size() == 1) {
            l = r = 77;
            eq((uint64_t)forward_search(csa, 0, m.n - 1, (typename Csa::char_type)p[0], l, r), (uint64_t)(hi - lo), "forward_search(symbol)");
        }
        // extend to the left: symbol by symbol, then by a whole pattern
        vector<uint64_t> w = p;
        size_t cl = lo, ch = hi;
        for (int step = 0; step < 4 and ch > cl; ++step) {
            uint64_t x = s.chance(1, 5) ? 1 + s.u(symmax - 1) : m.bwt[cl + s.u(ch - cl - 1)];
            if (x == 0) break; // the sentinel
            w.insert(w.begin(), x);
            auto e = m.interval(w);
            l = cl, r = ch - 1;
            auto got = backward_search(csa, l, r, (typename Csa::char_type)x, l, r); // in place, as the library itself does
            eq((uint64_t)got, (uint64_t)(e.second - e.first), "backward_search(symbol)", x, step);
            eq((uint64_t)(r + 1 - l), (uint64_t)(e.second - e.first), "interval of backward_search(symbol)", x, step);
            if (e.second > e.first) eq((uint64_t)l, (uint64_t)e.first, "left border of backward_search(symbol)", x, step);
            cl = e.first, ch = e.second;
        }
        if (hi > lo) {
            const char* dummy = "";
            auto q = pattern(s, m, symmax, dummy);
            auto qp = q;
            qp.insert(qp.end(), p.begin(), p.end());
            auto e = m.interval(qp);
            auto qs = index_string(csa, q);
            l = r = 77;
            eq((uint64_t)backward_search(csa, lo, hi - 1, qs.begin(), qs.end(), l, r), (uint64_t)(e.second - e.first), "backward_search from an interval");
            if (e.second > e.first) eq((uint64_t)l, (uint64_t)e.first, "left border of backward_search from an interval");
        }
    }
}
// histories of extensions in both directions
template<class Csa> void bidir(Src& s, Ctx& c)
{
    auto text = index_text<Csa>(s, c, s.chance(1, 6) ? 2500 : 300);
    auto rev = text;
    std::reverse(rev.begin(), rev.end());
    TextModel f, b;
    f.build(text);
    b.build(rev);
    Csa fw, bw;
    index_build(fw, text);
    index_build(bw, rev);
    uint64_t symmax = max_sym<Csa>(f);
    size_t n = f.n;
    for (int k = 0; k < 6; ++k) {
        vector<uint64_t> w;
        typename csa_wt<>::size_type lf = 0, rf = n - 1, lb = 0, rb = n - 1;
        string hist;
        for (int step = 0; step < 12; ++step) {
            bool left = s.b();
            size_t len = s.pick({4, 1}) ? s.u(4) : 1;
            vector<uint64_t> ext;
            auto e = f.interval(w);
            if (s.chance(1, 8)) {
                for (size_t i = 0; i < len; ++i) ext.push_back(1 + s.u(symmax - 1));
            } else { // follow an occurrence
                size_t occ = f.sa[e.first + s.u(e.second - e.first - 1)];
                for (size_t i = 0; i < len; ++i) {
                    if (left ? occ == 0 : occ + w.size() + i >= n - 1) break;
                    ext.push_back(left ? f.t[--occ] : f.t[occ + w.size() + i]);
                }
                if (left) std::reverse(ext.begin(), ext.end());
            }
            w.insert(left ? w.begin() : w.end(), ext.begin(), ext.end());
            auto es = index_string(fw, ext);
            size_t got;
            bool single = ext.size() == 1 and s.b();
            if (single and left) got = bidirectional_search(fw, lf, rf, lb, rb, ext[0], lf, rf, lb, rb);
            else if (single) got = bidirectional_search(bw, lb, rb, lf, rf, ext[0], lb, rb, lf, rf);
            else if (left) got = bidirectional_search_backward(fw, bw, lf, rf, lb, rb, es.begin(), es.end(), lf, rf, lb, rb);
            else got = bidirectional_search_forward(fw, bw, lf, rf, lb, rb, es.begin(), es.end(), lf, rf, lb, rb);
            c.describe([&] { return string(left ? " left " : " right ") + vec(ext); });
            auto rw = w;
            std::reverse(rw.begin(), rw.end());
            auto ef = f.interval(w), eb = b.interval(rw);
            size_t want = ef.second - ef.first;
            eq((uint64_t)got, (uint64_t)want, "size of the interval", step);
            eq((uint64_t)(rf + 1 - lf), (uint64_t)want, "forward interval size", step);
            eq((uint64_t)(rb + 1 - lb), (uint64_t)want, "reverse interval size", step);
            if (!want) break;
            eq((uint64_t)lf, (uint64_t)ef.first, "forward interval", step);
            eq((uint64_t)lb, (uint64_t)eb.first, "reverse interval", step);
            if (step and w.size() > 1) c.nt(true);
        }
        c.describe([&] { return string(" |"); });
    }
}
// suffix trees: count, locate and top-down search
template<class Cst> void tree(Src& s, Ctx& c)
{
    auto text = index_text<Cst>(s, c, s.chance(1, 6) ? 1500 : 250);
    TextModel m;
    m.build(text);
    Cst cst;
    index_build(cst, text);
    uint64_t symmax = max_sym<Cst>(m);
    for (int k = 0; k < 14; ++k) {
        const char* kind = "";
        auto p = pattern(s, m, symmax, kind);
        c.describe([&] { return string("pattern ") + vec(p); });
        auto iv = m.interval(p);
        size_t lo = iv.first, hi = iv.second;
        c.label(kind);
        c.label(hi > lo ? "occurs" : "does not occur");
        if (hi > lo and p.size() > 1) c.nt(true);
        auto str = typename Cst::string_type(p.begin(), p.end());
        eq((uint64_t)count(cst, str), (uint64_t)(hi - lo), "count(cst,pattern)");
        eq((uint64_t)count(cst, str.begin(), str.end()), (uint64_t)(hi - lo), "count(cst,begin,end)");
        same_positions(locate(cst, str), m, lo, hi, "locate(cst,pattern)");
        same_positions(locate(cst, p.begin(), p.end()), m, lo, hi, "locate(cst,begin,end)");
        auto vv = locate<Cst, vector<uint64_t>>(cst, str);
        same_positions(vv, m, lo, hi, "locate<vector>(cst,pattern)");
        typename Cst::node_type v = cst.root();
        typename Cst::size_type pos = 0;
        if (s.b()) {
            eq((uint64_t)forward_search(cst, v, 0, p.begin(), p.end(), pos), (uint64_t)(hi - lo), "forward_search(cst,pattern)");
            if (hi > lo) {
                eq((uint64_t)cst.lb(v), (uint64_t)lo, "left border of the node");
                eq((uint64_t)cst.rb(v), (uint64_t)(hi - 1), "right border of the node");
            }
        } else {
            vector<uint64_t> w;
            for (size_t d = 0; d < p.size(); ++d) {
                w.push_back(p[d]);
                auto e = m.interval(w);
                eq((uint64_t)forward_search(cst, v, d, p[d], pos), (uint64_t)(e.second - e.first), "forward_search(cst,symbol)", d);
                if (e.second == e.first) break;
                eq((uint64_t)cst.lb(v), (uint64_t)e.first, "left border of the node", d);
                eq((uint64_t)cst.rb(v), (uint64_t)(e.second - 1), "right border of the node", d);
            }
        }
    }
}
typedef sa_order_sa_sampling<> SS;
typedef isa_sampling<> IS;
#if PART == 0
typedef csa_wt<wt_huff<>, 4, 8> T0;
typedef csa_wt<wt_rlmn<>, 7, 3> T1;
typedef csa_wt<wt_blcd<rrr_vector<15>>, 8, 8, text_order_sa_sampling<>, text_order_isa_sampling_support<>> T2;
typedef csa_wt<wt_huff<>, 4, 8, SS, IS, succinct_byte_alphabet<>> T3;
typedef csa_wt<wt_int<>, 4, 8, SS, IS, int_alphabet<>> T4;
typedef csa_wt<wt_ap<>, 4, 8, SS, IS, int_alphabet<>> T5;
TARGET("wt_huff", 300) { run<T0>(s, c); }
TARGET("wt_rlmn", 150) { run<T1>(s, c); }
TARGET("wt_blcd_text_order", 150) { run<T2>(s, c); }
TARGET("wt_huff_succinct", 150) { run<T3>(s, c); }
TARGET("wt_int", 250) { run<T4>(s, c); }
TARGET("wt_ap", 120) { run<T5>(s, c); }
#elif PART == 1
typedef csa_sada<enc_vector<coder::elias_delta, 8>, 4, 8> T0;
typedef csa_sada<enc_vector<coder::elias_gamma, 200000>, 4, 8, SS, IS, succinct_byte_alphabet<>> T1;
typedef csa_sada<enc_vector<coder::fibonacci, 3>, 4, 8, SS, IS, int_alphabet<>> T2;
typedef csa_bitcompressed<> T3;
typedef csa_bitcompressed<int_alphabet<>> T4;
TARGET("sada", 300) { run<T0>(s, c); }
TARGET("sada_succinct", 120) { run<T1>(s, c); }
TARGET("sada_int", 200) { run<T2>(s, c); }
TARGET("bitcompressed", 200) { run<T3>(s, c); }
TARGET("bitcompressed_int", 200) { run<T4>(s, c); }
#elif PART == 2
typedef csa_wt<wt_hutu<>, 8, 8> T0;
typedef csa_wt<wt_blcd<>, 8, 8> T1;
typedef csa_wt<wt_hutu<rrr_vector<>>, 8, 8, SS, IS, succinct_byte_alphabet<>> T2;
typedef csa_wt<wt_int<>, 8, 8, SS, IS, int_alphabet<>> T3;
typedef csa_wt<wt_hutu_int<>, 8, 8, SS, IS, int_alphabet<>> T4;
typedef csa_wt<wt_blcd_int<>, 8, 8, SS, IS, int_alphabet<>> T5;
TARGET("bidir_hutu", 250) { bidir<T0>(s, c); }
TARGET("bidir_blcd", 250) { bidir<T1>(s, c); }
TARGET("bidir_hutu_succinct", 120) { bidir<T2>(s, c); }
TARGET("bidir_int", 250) { bidir<T3>(s, c); }
TARGET("bidir_hutu_int", 120) { bidir<T4>(s, c); }
TARGET("bidir_blcd_int", 120) { bidir<T5>(s, c); }
#else
typedef cst_sct3<csa_wt<wt_huff<>, 4, 8>> T0;
typedef cst_sada<csa_sada<enc_vector<>, 4, 8>> T1;
typedef cst_fully<csa_wt<wt_hutu<>, 4, 8>, 16> T2;
typedef cst_sct3<csa_sada_int<>> T3;
TARGET("cst_sct3", 200) { tree<T0>(s, c); }
TARGET("cst_sada", 150) { tree<T1>(s, c); }
TARGET("cst_fully", 100) { tree<T2>(s, c); }
TARGET("cst_sct3_int", 150) { tree<T3>(s, c); }
#endif
