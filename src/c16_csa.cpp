// C16: compressed suffix arrays answer like the suffix array.
#include "csacommon.hpp"
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

template<class A, class M> void member(const A& a, const M& m, const vector<size_t>& at, const char* what)
{
    eq((uint64_t)a.size(), (uint64_t)m.size(), what);
    eq((bool)a.empty(), m.empty(), what);
    for (auto i : at) eq((uint64_t)a[i], m[i], what, i);
}
template<class A, class M> void iterate(const A& a, const M& m, const char* what)
{
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i) eq((uint64_t)*it, m[i], what, i);
    eq(i, m.size(), what);
}
template<class Csa> void check(const Csa& csa, const TextModel& m, Src& s, Ctx& c)
{
    eq((uint64_t)csa.size(), (uint64_t)m.n, "size");
    eq((bool)csa.empty(), false, "empty");
    vector<uint64_t> psi(m.n), lf(m.n), F(m.n), al;
    for (size_t i = 0; i < m.n; ++i) {
        psi[i] = m.isa[(m.sa[i] + 1) % m.n];
        lf[i] = m.isa[(m.sa[i] + m.n - 1) % m.n];
        F[i] = m.t[m.sa[i]];
        if (!i or F[i] != F[i - 1]) al.push_back(F[i]);
    }
    c.nt(al.size() > 2 or m.n > 4);
    c.label(al.size() <= 2 ? "unary text" : al.size() < 16 ? "fewer than 16 symbols" : "16 symbols or more");
    Rng r(s.seed());
    vector<size_t> at;
    size_t lim = 160;
    if (m.n <= lim) for (size_t i = 0; i < m.n; ++i) at.push_back(i);
    else {
        for (size_t i = 0; i < 12; ++i) at.push_back(i), at.push_back(m.n - 1 - i);
        while (at.size() < lim) at.push_back(r.below(m.n));
    }
    member(csa, m.sa, at, "suffix array");
    member(csa.isa, m.isa, at, "inverse suffix array");
    member(csa.psi, psi, at, "psi");
    member(csa.lf, lf, at, "LF");
    member(csa.bwt, m.bwt, at, "BWT");
    member(csa.L, m.bwt, at, "L");
    member(csa.F, F, at, "F");
    member(csa.text, m.t, at, "text");
    if (m.n <= 200) {
        iterate(csa, m.sa, "suffix array by iteration");
        iterate(csa.isa, m.isa, "isa by iteration");
        iterate(csa.psi, psi, "psi by iteration");
        iterate(csa.lf, lf, "lf by iteration");
        iterate(csa.bwt, m.bwt, "bwt by iteration");
        iterate(csa.F, F, "F by iteration");
        iterate(csa.text, m.t, "text by iteration");
    }
    // alphabet
    eq((uint64_t)csa.sigma, (uint64_t)al.size(), "sigma");
    vector<uint64_t> C(al.size() + 1, 0);
    for (size_t i = 0, k = 0; i < m.n; ++i) {
        if (F[i] != al[k]) C[++k] = i;
    }
    C[al.size()] = m.n;
    for (size_t k = 0; k < al.size(); ++k) {
        eq((uint64_t)csa.comp2char[k], al[k], "comp2char", k);
        eq((uint64_t)csa.char2comp[al[k]], (uint64_t)k, "char2comp", al[k]);
    }
    for (size_t k = 0; k <= al.size(); ++k) eq((uint64_t)csa.C[k], C[k], "C", k);
    uint64_t symmax = index_is_byte<Csa>::value ? 255 : al.back() + 5;
    for (int k = 0; k < 20; ++k) {
        uint64_t x = r.upto(symmax);
        if (!std::binary_search(al.begin(), al.end(), x)) eq((uint64_t)csa.char2comp[x], (uint64_t)0, "char2comp of an absent symbol", x);
    }
    // rank and select on the BWT
    for (int k = 0; k < 60; ++k) {
        uint64_t x = r.below(6) ? al[r.below(al.size())] : r.upto(symmax);
        size_t i = r.below(8) ? r.upto(m.n) : r.below(2) ? m.n : 0, cnt = 0, tot = 0;
        for (size_t j = 0; j < m.n; ++j) {
            if (m.bwt[j] == x) {
                ++tot;
                cnt += j < i;
            }
        }
        eq((uint64_t)csa.bwt.rank(i, x), (uint64_t)cnt, "bwt.rank", i, x);
        size_t want = 1 + (r.below(4) ? r.upto(tot) : r.below(2) ? tot : 0), pos = 0, seen = 0;
        for (pos = 0; pos < m.n; ++pos) if (m.bwt[pos] == x and ++seen == want) break;
        eq((uint64_t)csa.bwt.select(want, x), (uint64_t)pos, "bwt.select", want, x);
    }
    // extraction of substrings
    for (int k = 0; k < 6; ++k) {
        size_t b = r.below(m.n), e = std::min(m.n - 1, b + (r.below(3) ? r.upto(20) : r.upto(m.n)));
        auto got = extract(csa, b, e);
        eq((uint64_t)got.size(), (uint64_t)(e - b + 1), "length of the extracted text", b, e);
        for (size_t j = b; j <= e; ++j) {
            typedef typename std::conditional<index_is_byte<Csa>::value, uint8_t, uint64_t>::type U;
            eq((uint64_t)(U)got[j - b], m.t[j], "extracted symbol", b, j);
        }
    }
}
template<class C> void run(Src& s, Ctx& c)
{
    auto text = index_text<C>(s, c, s.chance(1, 8) ? 3000 : 400);
    TextModel m;
    m.build(text);
    C csa;
    eq((uint64_t)csa.size(), (uint64_t)0, "size of the default constructed index");
    if (s.chance(1, 4)) {
        auto old = index_text<C>(s, c, 60);
        index_build(csa, old);
    }
    index_build(csa, text, s.chance(1, 3) ? s.in(1, 64) : 0);
    check(csa, m, s, c);
}
// sampling of the positions preceded by certain symbols, which are read from the cache
template<class Csa> void run_bwt(Src& s, Ctx& c)
{
    auto text = index_text<Csa>(s, c, 400);
    TextModel m;
    m.build(text);
    vector<uint64_t> chars;
    for (size_t k = s.u(4); k--;) chars.push_back(m.t[s.u(m.n - 1)]);
    if (s.chance(1, 3)) chars.push_back(s.u(255));
    c.describe([&] { return "sampled symbols " + vec(chars); });
    c.label(chars.empty() ? "no sampled symbols" : "sampled symbols");
    int_vector<> sc(chars.size(), 0, 64);
    std::copy(chars.begin(), chars.end(), sc.begin());
    cache_config cc(true, "@" + scratch());
    store_to_cache(sc, conf::KEY_SAMPLE_CHAR, cc);
    string file = "@" + scratch() + "/text";
    if (index_is_byte<Csa>::value) store_to_file(string(text.begin(), text.end()), file);
    else {
        int_vector<> v(text.size(), 0, 64);
        std::copy(text.begin(), text.end(), v.begin());
        store_to_file(v, file);
    }
    Csa csa;
    construct(csa, file, cc, index_is_byte<Csa>::value ? 1 : 0);
    ram_fs::remove(file);
    check(csa, m, s, c);
    for (size_t i = 0; i < m.n; ++i)
        if (std::find(chars.begin(), chars.end(), m.bwt[i]) != chars.end()) req(csa.sa_sample.is_sampled(i), "a position preceded by a sampled symbol is not sampled", i);
}
typedef text_order_sa_sampling<> TS;
typedef text_order_isa_sampling_support<> TI;
typedef fuzzy_sa_sampling<> FS;
typedef fuzzy_isa_sampling_support<> FI;
typedef sa_order_sa_sampling<> SS;
typedef isa_sampling<> IS;
#if PART == 0
typedef csa_wt<> T_default;
typedef csa_wt<wt_huff<>, 1, 1> T_11;
typedef csa_wt<wt_hutu<>, 3, 7> T_37;
typedef csa_wt<wt_blcd<rrr_vector<>>, 100, 5000> T_big;
typedef csa_wt<wt_rlmn<>, 16, 5> T_rlmn;
typedef csa_wt<wt_huff<>, 8, 16, TS> T_ts;
typedef csa_wt<wt_huff<>, 8, 8, TS, TI> T_tsti;
TARGET("wt_default", 120) { run<T_default>(s, c); }
TARGET("wt_1_1", 60) { run<T_11>(s, c); }
TARGET("wt_3_7", 120) { run<T_37>(s, c); }
TARGET("wt_100_5000", 60) { run<T_big>(s, c); }
TARGET("wt_rlmn", 60) { run<T_rlmn>(s, c); }
TARGET("wt_text_order", 100) { run<T_ts>(s, c); }
TARGET("wt_text_order_isa", 150) { run<T_tsti>(s, c); }
#elif PART == 1
typedef csa_wt<wt_huff<>, 5, 5, text_order_sa_sampling<bit_vector, rank_support_v5<>>, text_order_isa_sampling_support<inv_perm_support<3>>> T_tsti2;
typedef csa_wt<wt_huff<>, 1, 1, TS, TI> T_tsti1;
typedef csa_wt<wt_huff<>, 16, 8, FS> T_fs;
typedef csa_wt<wt_huff<>, 8, 8, FS, FI> T_fsfi;
typedef csa_wt<wt_huff<>, 3, 3, fuzzy_sa_sampling<bit_vector, bit_vector>, FI> T_fsfi2;
typedef csa_wt<wt_huff<>, 200, 200, fuzzy_sa_sampling<bit_vector, sd_vector<>>, FI> T_fsfi3;
typedef csa_wt<wt_huff<>, 6, 9, sa_bwt_sampling<>> T_bs;
TARGET("wt_text_order_isa_5", 120) { run<T_tsti2>(s, c); }
TARGET("wt_text_order_isa_1", 60) { run<T_tsti1>(s, c); }
TARGET("wt_fuzzy", 100) { run<T_fs>(s, c); }
TARGET("wt_fuzzy_isa", 100) { run<T_fsfi>(s, c); }
TARGET("wt_fuzzy_isa_3", 100) { run<T_fsfi2>(s, c); }
TARGET("wt_fuzzy_isa_200", 60) { run<T_fsfi3>(s, c); }
TARGET("wt_bwt_sampling", 60) { run<T_bs>(s, c); }
TARGET("wt_bwt_sampling_chars", 100) { run_bwt<T_bs>(s, c); }
#elif PART == 2
typedef csa_wt<wt_huff<>, 8, 16, SS, IS, succinct_byte_alphabet<>> T_sba;
typedef csa_wt<wt_huff<>, 8, 16, SS, IS, succinct_byte_alphabet<bit_vector, rank_support_v<>, select_support_mcl<>>> T_sba2;
typedef csa_bitcompressed<> T_bc;
typedef csa_bitcompressed<succinct_byte_alphabet<sd_vector<>, rank_support_sd<>, select_support_sd<>>> T_bcs;
typedef csa_bitcompressed<int_alphabet<>> T_bci;
typedef csa_wt_int<> T_wi;
typedef csa_wt<wm_int<>, 3, 4, SS, IS, int_alphabet<>> T_wm;
TARGET("wt_succinct_alphabet", 80) { run<T_sba>(s, c); }
TARGET("wt_succinct_alphabet2", 80) { run<T_sba2>(s, c); }
TARGET("bitcompressed", 150) { run<T_bc>(s, c); }
TARGET("bitcompressed_succinct", 100) { run<T_bcs>(s, c); }
TARGET("bitcompressed_int", 150) { run<T_bci>(s, c); }
TARGET("wt_int", 120) { run<T_wi>(s, c); }
TARGET("wt_wm_int", 120) { run<T_wm>(s, c); }
#elif PART == 3
typedef csa_wt<wt_int<rrr_vector<63>>, 8, 8, TS, TI, int_alphabet<>> T_wit;
typedef csa_wt<wt_int<>, 4, 4, FS, FI, int_alphabet<>> T_wif;
typedef csa_wt<wt_int<>, 6, 9, sa_bwt_sampling<sd_vector<>>, IS, int_alphabet<bit_vector>> T_wib;
typedef csa_wt<wt_ap<>, 6, 9, SS, IS, int_alphabet<>> T_ap;
typedef csa_wt<wt_huff_int<>, 16, 16, SS, IS, int_alphabet<rrr_vector<>>> T_hi;
typedef csa_wt<wt_gmr<>, 6, 9, SS, IS, int_alphabet<>> T_gmr;
TARGET("wt_int_text_order", 120) { run<T_wit>(s, c); }
TARGET("wt_int_fuzzy", 100) { run<T_wif>(s, c); }
TARGET("wt_int_bwt_sampling", 80) { run_bwt<T_wib>(s, c); }
TARGET("wt_ap", 80) { run<T_ap>(s, c); }
TARGET("wt_huff_int", 80) { run<T_hi>(s, c); }
TARGET("wt_gmr", 50) { run<T_gmr>(s, c); }
#elif PART == 4
typedef csa_sada<> T_default;
typedef csa_sada<enc_vector<coder::fibonacci, 5>, 1, 1> T_f;
typedef csa_sada<enc_vector<coder::elias_gamma, 16>, 7, 3> T_g;
typedef csa_sada<enc_vector<coder::comma<2>, 3>, 8, 200> T_c;
typedef csa_sada<enc_vector<coder::elias_delta, 200000>, 1000, 4000> T_big;
typedef csa_sada<enc_vector<>, 8, 8, TS, TI> T_tsti;
typedef csa_sada<enc_vector<coder::elias_delta, 2>, 6, 9, TS, IS> T_tsis;
TARGET("sada_default", 150) { run<T_default>(s, c); }
TARGET("sada_fibonacci", 120) { run<T_f>(s, c); }
TARGET("sada_gamma", 120) { run<T_g>(s, c); }
TARGET("sada_comma", 120) { run<T_c>(s, c); }
TARGET("sada_200000", 60) { run<T_big>(s, c); }
TARGET("sada_text_order_isa", 100) { run<T_tsti>(s, c); }
TARGET("sada_text_order", 100) { run<T_tsis>(s, c); }
#else
typedef csa_sada<enc_vector<>, 8, 12, FS, IS> T_fs;
typedef csa_sada<enc_vector<>, 5, 5, FS, FI> T_fsfi;
typedef csa_sada<enc_vector<>, 5, 6, sa_bwt_sampling<>, IS> T_bs;
typedef csa_sada<enc_vector<>, 5, 6, SS, IS, succinct_byte_alphabet<>> T_sba;
typedef csa_sada_int<> T_int;
typedef csa_sada<enc_vector<coder::elias_gamma, 4>, 4, 4, TS, TI, int_alphabet<>> T_intt;
typedef csa_sada<enc_vector<coder::fibonacci, 9>, 4, 4, FS, FI, int_alphabet<>> T_intf;
TARGET("sada_fuzzy", 100) { run<T_fs>(s, c); }
TARGET("sada_fuzzy_isa", 100) { run<T_fsfi>(s, c); }
TARGET("sada_bwt_sampling", 80) { run_bwt<T_bs>(s, c); }
TARGET("sada_succinct_alphabet", 80) { run<T_sba>(s, c); }
TARGET("sada_int", 120) { run<T_int>(s, c); }
TARGET("sada_int_text_order", 80) { run<T_intt>(s, c); }
TARGET("sada_int_fuzzy", 80) { run<T_intf>(s, c); }
#endif
