// C05: select of every structure against the list of occurrences.
#include "bvgen.hpp"
#include <sdsl/vectors.hpp>
using namespace sdsl;
using namespace pbt;
using std::vector;

static vector<uint64_t> occ(const gen::Bits& b, int p0, int p1, int len)
{
    vector<uint64_t> r;
    for (size_t i = 0; i < b.size(); ++i)
        if (len == 1 ? b[i] == p1 : (i > 0 and b[i - 1] == p0 and b[i] == p1)) r.push_back(i);
    return r;
}
template<class S, class BV> void sel_all(Src& s, const BV& x, const vector<uint64_t>& o, size_t n, size_t full, const char* what)
{
    S sel(&x);
    if (o.size()) {
        for (auto i : bvgen::positions(s, o.size() - 1, full, full / 3)) eq(sel.select(i + 1), o[i], what, i + 1, o.size());
        eq(sel(o.size()), o.back(), what, o.size());
    }
}
template<class BV> void run(Src& s, Ctx& c, bvgen::Input in, const char* name)
{
    c.nt(in.ones[in.n()] > 0 and in.ones[in.n()] < in.n());
    if (in.n() > 70000) c.label("large");
    c.describe([&] { return std::string(name) + " " + gen::bitstr(in.b); });
    BV x(in.bv);
    sel_all<typename BV::select_1_type>(s, x, occ(in.b, 0, 1, 1), in.n(), 4000, "select_1");
    sel_all<typename BV::select_0_type>(s, x, occ(in.b, 0, 0, 1), in.n(), 4000, "select_0");
}
#define ENC(type, label, weight) \
    TARGET(label, weight * 14) { run<type>(s, c, bvgen::make(s, s.chance(1, 12) ? 70000 : 2500), label); } \
    TARGET(label "_large", 1 + weight / 12) { run<type>(s, c, bvgen::make_large(s, 100000, s.chance(1, 4) ? 4500000 : 500000), label); }
#define ENCNS(type, label, weight)
#include "bvtypes.hpp"

#if PART==3
static void sd0(Src& s, Ctx& c, const bvgen::Input& in)
{
    c.nt(in.ones[in.n()] > 0 and in.ones[in.n()] < in.n());
    c.describe([&] { return gen::bitstr(in.b); });
    sd_vector<> x(in.bv);
    sel_all<select_0_support_sd<sd_vector<>>>(s, x, occ(in.b, 0, 0, 1), in.n(), 4000, "select_0_support_sd");
}
TARGET("sd_select0", 2500)
{
    sd0(s, c, bvgen::make(s, s.chance(1, 12) ? 70000 : 2500));
}
TARGET("sd_select0_large", 20)
{
    sd0(s, c, bvgen::make_large(s, 100000, 1000000));
}
#endif
#if PART==3
// ones far apart: the vector is much longer than what could be written down bit by bit
template<class BV, class... S0> void sparse(Src& s, Ctx& c)
{
    auto v = gen::ints(s, 400, s.in(8, 56));
    if (s.chance(1, 3)) { // two groups
        uint64_t gap = 1ULL << s.in(20, 55), k = v.size() / 2;
        for (size_t i = k; i < v.size(); ++i) v[i] = gap + v[i] % 1000;
    }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    c.nt(v.size() > 1);
    c.describe([&] { return "positions of ones " + vec(v); });
    BV x(v.begin(), v.end());
    uint64_t n = v.empty() ? 0 : v.back() + 1, zeros = n - v.size();
    typename BV::select_1_type s1(&x);
    for (size_t i = 0; i < v.size(); ++i) eq(s1.select(i + 1), v[i], "select_1", i + 1, n);
    Rng r(s.seed());
    vector<uint64_t> at; // ranks of zeros
    auto add = [&](uint64_t k) { if (k >= 1 and k <= zeros) at.push_back(k); };
    for (size_t i = 0; i < v.size(); ++i) {
        add(v[i] - i);
        add(v[i] - i + 1);
    }
    add(1);
    add(zeros);
    for (int i = 0; i < 60; ++i) add(1 + r.upto(zeros));
    for (auto k : at) { // the k-th zero has exactly j ones before it
        size_t lo = 0, hi = v.size();
        while (lo < hi) {
            size_t m = (lo + hi) / 2;
            if (v[m] - m < k) lo = m + 1;
            else hi = m;
        }
        uint64_t want = k - 1 + lo;
        int dummy[] = {0, (eq(S0(&x).select(k), want, "select_0", k, n), 0)...};
        (void)dummy;
    }
}
typedef rrr_vector<63> rrr63_t_;
TARGET("sd_sparse", 800) { sparse<sd_vector<>, sd_vector<>::select_0_type, select_0_support_sd<sd_vector<>>>(s, c); }
TARGET("sd_rrr63_sparse", 200) { typedef sd_vector<rrr63_t_> V; sparse<V, V::select_0_type>(s, c); }
#endif
#if PART==5
static void plain(Src& s, Ctx& c, const bvgen::Input& in, bool scan)
{
    c.nt(in.ones[in.n()] > 0 and in.ones[in.n()] < in.n());
    if (in.n() > 70000) c.label("large");
    c.describe([&] { return gen::bitstr(in.b); });
    auto o0 = occ(in.b, 0, 0, 1), o1 = occ(in.b, 0, 1, 1), o10 = occ(in.b, 1, 0, 2), o01 = occ(in.b, 0, 1, 2), o00 = occ(in.b, 0, 0, 2), o11 = occ(in.b, 1, 1, 2);
    size_t f = 4000, n = in.n();
    sel_all<select_support_mcl<0, 1>>(s, in.bv, o0, n, f, "select_support_mcl<0>");
    sel_all<select_support_mcl<1, 1>>(s, in.bv, o1, n, f, "select_support_mcl<1>");
    sel_all<select_support_mcl<10, 2>>(s, in.bv, o10, n, f, "select_support_mcl<10,2>");
    sel_all<select_support_mcl<01, 2>>(s, in.bv, o01, n, f, "select_support_mcl<01,2>");
    sel_all<select_support_mcl<00, 2>>(s, in.bv, o00, n, f, "select_support_mcl<00,2>");
    sel_all<select_support_mcl<11, 2>>(s, in.bv, o11, n, f, "select_support_mcl<11,2>");
    if (scan) {
        f = 150;
        sel_all<select_support_scan<0, 1>>(s, in.bv, o0, n, f, "select_support_scan<0>");
        sel_all<select_support_scan<1, 1>>(s, in.bv, o1, n, f, "select_support_scan<1>");
        sel_all<select_support_scan<10, 2>>(s, in.bv, o10, n, f, "select_support_scan<10,2>");
        sel_all<select_support_scan<01, 2>>(s, in.bv, o01, n, f, "select_support_scan<01,2>");
    }
}
TARGET("plain", 3000)
{
    plain(s, c, bvgen::make(s, s.chance(1, 10) ? 70000 : 6000), true);
}
TARGET("plain_large", 60)
{
    plain(s, c, bvgen::make_large(s, 100000, 1500000), false);
}
#endif
