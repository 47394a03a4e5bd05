// C04: rank of every structure against prefix counts.
#include "bvgen.hpp"
#include <sdsl/vectors.hpp>
using namespace sdsl;
using namespace pbt;
using std::vector;

template<class R, class BV> void rank_all(const BV& x, const bvgen::Input& in, const vector<uint64_t>& pos, bool one, const char* what)
{
    R r(&x);
    for (auto i : pos) {
        uint64_t want = one ? in.ones[i] : i - in.ones[i];
        eq(r.rank(i), want, what, i, in.n());
    }
    eq(r(pos.back()), one ? in.ones[pos.back()] : pos.back() - in.ones[pos.back()], "operator()", pos.back());
    eq(r.size(), in.n(), "size of the support");
}
template<class BV> void run(Src& s, Ctx& c, bvgen::Input in, const char* name)
{
    c.nt(in.ones[in.n()] > 0 and in.ones[in.n()] < in.n());
    if (in.n() > 70000) c.label("large");
    c.describe([&] { return std::string(name) + " " + gen::bitstr(in.b); });
    BV x(in.bv);
    auto pos = bvgen::positions(s, in.n(), 5000, 1500);
    rank_all<typename BV::rank_1_type>(x, in, pos, true, "rank_1");
    rank_all<typename BV::rank_0_type>(x, in, pos, false, "rank_0");
}
#define ENC(type, label, weight) \
    TARGET(label, weight * 14) { run<type>(s, c, bvgen::make(s, s.chance(1, 12) ? 70000 : 2500), label); } \
    TARGET(label "_large", 1 + weight / 12) { run<type>(s, c, bvgen::make_large(s, 100000, s.chance(1, 4) ? 4500000 : 500000), label); }
#define ENCNS ENC
#include "bvtypes.hpp"

#if PART==3
// ones far apart: the vector is much longer than what could be written down bit by bit
template<class BV> void sparse(Src& s, Ctx& c)
{
    auto v = gen::ints(s, 400, s.in(8, 56));
    if (s.chance(1, 3)) { // two groups
        uint64_t gap = 1ULL << s.in(20, 55), k = v.size() / 2;
        for (size_t i = k; i < v.size(); ++i) v[i] = gap + v[i] % 1000;
    }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    c.nt(v.size() > 1);
    c.describe([&] { return "positions of ones " + vec(v); });
    BV x(v.begin(), v.end());
    uint64_t n = v.empty() ? 0 : v.back() + 1;
    typename BV::rank_1_type r1(&x);
    typename BV::rank_0_type r0(&x);
    Rng r(s.seed());
    vector<uint64_t> at{0, n};
    for (auto p : v) {
        at.push_back(p);
        at.push_back(p + 1);
        if (p) at.push_back(p - 1);
    }
    for (int i = 0; i < 100; ++i) at.push_back(r.upto(n));
    for (auto i : at) {
        uint64_t want = std::lower_bound(v.begin(), v.end(), i) - v.begin();
        eq(r1.rank(i), want, "rank_1", i, n);
        eq(r0.rank(i), i - want, "rank_0", i, n);
        eq(r1(i), want, "rank_1()", i, n);
    }
    eq(r1.size(), n, "size of the support");
}
TARGET("sd_sparse", 1200) { sparse<sd_vector<>>(s, c); }
TARGET("sd_rrr63_sparse", 400) { sparse<sd_vector<rrr_vector<63>>>(s, c); }
#endif
#if PART==5
// occurrences of a 1- or 2-bit pattern that end before each position
static vector<uint64_t> pattern_prefix(const gen::Bits& b, int p0, int p1, int len)
{
    vector<uint64_t> r(b.size() + 1);
    for (size_t i = 0; i < b.size(); ++i) {
        bool hit = len == 1 ? b[i] == p1 : (i > 0 and b[i - 1] == p0 and b[i] == p1);
        r[i + 1] = r[i] + hit;
    }
    return r;
}
template<class R> void pat(const bvgen::Input& in, const vector<uint64_t>& want, const vector<uint64_t>& pos, const char* what)
{
    R r(&in.bv);
    for (auto i : pos) eq(r.rank(i), want[i], what, i, in.n());
    eq(r(in.n()), want[in.n()], what, in.n());
    eq(r.size(), in.n(), "size of the support");
}
static void plain(Src& s, Ctx& c, const bvgen::Input& in, bool scan)
{
    c.nt(in.ones[in.n()] > 0 and in.ones[in.n()] < in.n());
    if (in.n() > 70000) c.label("large");
    if (in.n() % 64 == 0) c.label("size multiple of 64");
    c.describe([&] { return gen::bitstr(in.b); });
    auto pos = bvgen::positions(s, in.n(), 5000, 1500);
    auto spos = bvgen::positions(s, in.n(), 300, 200);
    auto w0 = pattern_prefix(in.b, 0, 0, 1), w1 = pattern_prefix(in.b, 0, 1, 1), w10 = pattern_prefix(in.b, 1, 0, 2),
         w01 = pattern_prefix(in.b, 0, 1, 2), w00 = pattern_prefix(in.b, 0, 0, 2), w11 = pattern_prefix(in.b, 1, 1, 2);
    pat<rank_support_v<0, 1>>(in, w0, pos, "rank_support_v<0>");
    pat<rank_support_v<1, 1>>(in, w1, pos, "rank_support_v<1>");
    pat<rank_support_v<10, 2>>(in, w10, pos, "rank_support_v<10,2>");
    pat<rank_support_v<01, 2>>(in, w01, pos, "rank_support_v<01,2>");
    pat<rank_support_v<00, 2>>(in, w00, pos, "rank_support_v<00,2>");
    pat<rank_support_v<11, 2>>(in, w11, pos, "rank_support_v<11,2>");
    pat<rank_support_v5<0, 1>>(in, w0, pos, "rank_support_v5<0>");
    pat<rank_support_v5<1, 1>>(in, w1, pos, "rank_support_v5<1>");
    pat<rank_support_v5<10, 2>>(in, w10, pos, "rank_support_v5<10,2>");
    pat<rank_support_v5<01, 2>>(in, w01, pos, "rank_support_v5<01,2>");
    pat<rank_support_v5<00, 2>>(in, w00, pos, "rank_support_v5<00,2>");
    pat<rank_support_v5<11, 2>>(in, w11, pos, "rank_support_v5<11,2>");
    if (scan) {
        pat<rank_support_scan<0, 1>>(in, w0, spos, "rank_support_scan<0>");
        pat<rank_support_scan<1, 1>>(in, w1, spos, "rank_support_scan<1>");
        pat<rank_support_scan<10, 2>>(in, w10, spos, "rank_support_scan<10,2>");
        pat<rank_support_scan<01, 2>>(in, w01, spos, "rank_support_scan<01,2>");
        pat<rank_support_scan<00, 2>>(in, w00, spos, "rank_support_scan<00,2>");
        pat<rank_support_scan<11, 2>>(in, w11, spos, "rank_support_scan<11,2>");
    }
}
TARGET("plain", 3000)
{
    plain(s, c, bvgen::make(s, s.chance(1, 12) ? 70000 : 3000), true);
}
TARGET("plain_large", 30)
{
    plain(s, c, bvgen::make_large(s, 100000, 2000000), false);
}
#endif
