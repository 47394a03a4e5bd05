// C12: wavelet trees answer access, rank, select and inverse select exactly.
#include "wtcommon.hpp"

template<class WT> auto iterate(const WT& wt, const vector<uint64_t>& v, int) -> decltype(wt.begin(), void())
{
    if (v.empty()) return;
    size_t i = 0;
    if (v.size() <= 3000) {
        for (auto it = wt.begin(); it != wt.end(); ++it, ++i) eq(*it, v[i], "iteration", i);
        eq(i, v.size(), "iteration length");
    }
    eq(wt.end() - wt.begin(), v.size(), "end()-begin()");
}
template<class WT> void iterate(const WT&, const vector<uint64_t>&, long) {}

template<class WT> void run(Src& s, Ctx& c, const char* name, uint64_t maxsym)
{
    uint64_t max = s.chance(1, 3) ? maxsym : std::min<uint64_t>(maxsym, s.val(bits::hi(maxsym) + 1));
    auto v = wt_seq(s, s.chance(1, 10) ? 12000 : 1500, max);
    size_t n = v.size();
    c.describe([&] { return string(name) + " seq " + vec(v); });
    WT wt;
    wt_build(wt, v, s, c);
    // model
    vector<std::pair<uint64_t, uint64_t>> sp; // (symbol, position) sorted
    for (size_t i = 0; i < n; ++i) sp.emplace_back(v[i], i);
    std::sort(sp.begin(), sp.end());
    vector<uint64_t> al;
    for (auto& x : sp) if (al.empty() or al.back() != x.first) al.push_back(x.first);
    c.nt(al.size() > 1);
    if (al.size() == 1) c.label("one symbol");
    if (n == 0) c.label("empty");
    auto cnt = [&](uint64_t i, uint64_t ch) { // occurrences of ch in [0,i)
        return std::lower_bound(sp.begin(), sp.end(), std::make_pair(ch, i)) - std::lower_bound(sp.begin(), sp.end(), std::make_pair(ch, (uint64_t)0));
    };
    eq(wt.size(), n, "size()");
    eq(wt.empty(), n == 0, "empty()");
    eq(wt.sigma, al.size(), "sigma");
    Rng r(s.seed());
    size_t steps = n <= 700 ? n : 500;
    for (size_t k = 0; k < steps; ++k) {
        size_t i = n <= 700 ? k : k < 3 ? k : k < 6 ? n - 1 - (k - 3) : r.below(n);
        eq(wt[i], v[i], "wt[i]", i);
        auto p = wt.inverse_select(i);
        eq(p.second, v[i], "inverse_select symbol", i);
        uint64_t rk = cnt(i, v[i]);
        eq(p.first, rk, "inverse_select rank", i, v[i]);
        eq(wt.rank(i, v[i]), rk, "rank(i, wt[i])", i, v[i]);
        eq(wt.rank(i + 1, v[i]), rk + 1, "rank(i+1, wt[i])", i, v[i]);
        eq(wt.select(rk + 1, v[i]), i, "select(rank+1, wt[i])", rk + 1, v[i]);
    }
    iterate(wt, v, 0);
    uint64_t tmask = WT::alphabet_category::WIDTH == 8 ? 255 : ~0ULL;
    for (size_t k = 0; k < 300 and n; ++k) {
        uint64_t ch;
        switch (r.below(5)) {
            case 0: ch = r.upto(max); break;
            case 1: ch = al[r.below(al.size())] + 1; break;
            case 2: ch = al[r.below(al.size())] - 1; break;
            case 3: ch = r.next() >> r.below(64); break;
            default: ch = al[r.below(al.size())];
        }
        ch &= tmask;
        if (ch > 2 * maxsym and maxsym < 1000000 and r.below(4)) ch = maxsym + 1;
        size_t i = k % 16 == 0 ? n : k % 16 == 1 ? 0 : r.upto(n);
        ch &= tmask;
        eq(wt.rank(i, ch), cnt(i, ch), "rank(i,c)", i, ch);
        uint64_t occ = cnt(n, ch);
        if (occ) {
            uint64_t j = 1 + r.below(occ);
            auto it = std::lower_bound(sp.begin(), sp.end(), std::make_pair(ch, (uint64_t)0)) + (j - 1);
            eq(wt.select(j, ch), it->second, "select(j,c)", j, ch);
        }
    }
}
#define WT(type, label, maxsym, weight) TARGET(label, weight) { run<type>(s, c, label, maxsym); }
#if PART==0
WT(wpb_t, "wt_pc_balanced", 255, 150)
WT(wt_blcd<>, "wt_blcd", 255, 250)
WT(wt_huff<>, "wt_huff", 255, 250)
WT(wt_hutu<>, "wt_hutu", 255, 250)
WT(hutu_il_t, "wt_hutu_il", 255, 100)
#elif PART==1
WT(huff_rrr_t, "wt_huff_rrr63", 255, 100)
WT(blcd_rrr_t, "wt_blcd_rrr63", 255, 60)
WT(hutu_rrr_t, "wt_hutu_rrr15", 255, 60)
WT(huff_v5_t, "wt_huff_v5", 255, 60)
WT(huff_il_t, "wt_huff_il256", 255, 60)
#elif PART==2
WT(rlmn_sd_t, "wt_rlmn_sd", 255, 250)
WT(rlmn_bv_t, "wt_rlmn_bv", 255, 200)
WT(rlmn_int_t, "wt_rlmn_int", 5000, 200)
WT(gmrrs_t, "wt_gmr_rs", 300, 150)
#elif PART==3
WT(blcd_int_t, "wt_blcd_int", 6000, 150)
WT(huff_int_t, "wt_huff_int", 6000, 150)
WT(hutu_int_t, "wt_hutu_int", 6000, 120)
WT(huff_int_rrr_t, "wt_huff_int_rrr63", 3000, 60)
#elif PART==4
WT(gmr_t, "wt_gmr", 3000, 200)
WT(gmr_enc_t, "wt_gmr_enc", 600, 80)
WT(gmrrs_enc_t, "wt_gmr_rs_dac_rrr", 100, 60)
WT(wap_t, "wt_ap", 3000, 250)
#elif PART==5
WT(wtint_t, "wt_int", ~0ULL, 300)
WT(wmint_t, "wm_int", ~0ULL, 300)
WT(wtint_t, "wt_int_small", 1000, 200)
WT(wmint_t, "wm_int_small", 1000, 200)
WT(wtint_rrr_t, "wt_int_rrr63", ~0ULL, 60)
WT(wmint_rrr_t, "wm_int_rrr15", ~0ULL, 60)
WT(wtint_v5_t, "wt_int_v5_scan", 100, 60)
#endif
