// C15: LCP construction algorithms and LCP representations.
#include "textgen.hpp"
#include <sdsl/construct.hpp>
#include <sdsl/construct_lcp.hpp>
#include <sdsl/suffix_trees.hpp>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

static cache_config config(Src& s, Ctx& c)
{
    bool ram = !s.chance(1, 5);
    c.label(ram ? "in-memory cache" : "disk cache");
    return cache_config(false, ram ? string("@") : scratch());
}
template<uint8_t W, class V> void put(cache_config& cc, const V& t, const char* key, unsigned w)
{
    int_vector<W> v(t.size(), 0, w);
    for (size_t i = 0; i < t.size(); ++i) v[i] = t[i];
    store_to_cache(v, key, cc);
}
static vector<uint64_t> btext(Src& s, Ctx& c, size_t max)
{
    auto t = s.chance(1, 4) ? block_text(s, max) : byte_text(s, max);
    c.describe([&] { return "text " + text_str(t, true); });
    return t;
}
static vector<uint64_t> itext(Src& s, Ctx& c, size_t max, unsigned maxbits = 63)
{
    auto t = int_text(s, max, s.b() ? bits::lo_set[s.in(1, maxbits)] : std::max<uint64_t>(1, s.val(maxbits)));
    c.describe([&] { return "integer text " + vec(t); });
    return t;
}
static void classify(Ctx& c, const TextModel& m)
{
    uint64_t mx = *std::max_element(m.lcp.begin(), m.lcp.end());
    c.nt(mx > 0);
    c.label(mx >= 254 ? "maximal LCP >= 254" : mx >= 64 ? "maximal LCP in [64,254)" : "maximal LCP < 64");
}
template<class L> void check_lcp(const L& l, const TextModel& m)
{
    eq(l.size(), m.n, "length of the LCP array");
    for (size_t i = 0; i < m.n; ++i) eq((uint64_t)l[i], m.lcp[i], "LCP", i);
}
template<uint8_t W> void algo(Src& s, Ctx& c, const vector<uint64_t>& text, void (*f)(cache_config&), const char* name, bool only_bwt)
{
    TextModel m;
    m.build(text);
    classify(c, m);
    c.describe([&] { return string(" ") + name; });
    auto cc = config(s, c);
    uint64_t mx = *std::max_element(m.t.begin(), m.t.end());
    unsigned need = bits::hi(mx) + 1, w = W ? W : s.in(need, 64);
    if (!only_bwt or s.b()) {
        put<W>(cc, m.t, key_text_trait<W>::KEY_TEXT, w);
        unsigned ns = bits::hi(m.n) + 1; // the library stores the suffix array with bits::hi(n)+1 bits
        put<0>(cc, m.sa, conf::KEY_SA, s.b() ? ns : s.in(ns, 64));
    }
    put<W>(cc, m.bwt, key_bwt_trait<W>::KEY_BWT, w);
    f(cc);
    int_vector<> lcp;
    req(load_from_cache(lcp, conf::KEY_LCP, cc), "LCP was not stored in the cache");
    check_lcp(lcp, m);
    util::delete_all_files(cc.file_map);
}
#if PART == 0
static size_t sz(Src& s)
{
    return s.chance(1, 30) ? 14000 : 2000;
}
TARGET("kasai_byte", 300) { algo<8>(s, c, btext(s, c, sz(s)), construct_lcp_kasai<8>, "kasai", false); }
TARGET("kasai_int", 300) { algo<0>(s, c, itext(s, c, sz(s)), construct_lcp_kasai<0>, "kasai", false); }
TARGET("phi_byte", 300) { algo<8>(s, c, btext(s, c, sz(s)), construct_lcp_PHI<8>, "PHI", false); }
TARGET("phi_int", 300) { algo<0>(s, c, itext(s, c, sz(s)), construct_lcp_PHI<0>, "PHI", false); }
TARGET("semi_extern_phi", 600) { algo<8>(s, c, btext(s, c, sz(s)), construct_lcp_semi_extern_PHI, "semi extern PHI", false); }
TARGET("go", 900) { algo<8>(s, c, btext(s, c, sz(s)), construct_lcp_go, "go", false); }
TARGET("goPHI", 900) { algo<8>(s, c, btext(s, c, sz(s)), construct_lcp_goPHI, "goPHI", false); }
TARGET("bwt_based", 400) { algo<8>(s, c, btext(s, c, sz(s)), construct_lcp_bwt_based, "bwt_based", true); }
TARGET("bwt_based2", 400) { algo<8>(s, c, btext(s, c, sz(s)), construct_lcp_bwt_based2, "bwt_based2", true); }

// standalone representations, built from a text file
template<class L> void standalone(Src& s, Ctx& c)
{
    bool bytes = s.chance(2, 3);
    auto text = bytes ? btext(s, c, 2000) : itext(s, c, 1000);
    TextModel m;
    m.build(text);
    classify(c, m);
    L l;
    if (s.chance(1, 4)) { // over old content
        TextModel o;
        o.build(byte_text(s, 300));
        construct_im(l, string(o.t.begin(), o.t.end() - 1), 1);
    }
    if (bytes) {
        construct_im(l, string(text.begin(), text.end()), 1);
    } else {
        uint64_t mx = *std::max_element(m.t.begin(), m.t.end());
        int_vector<> v(text.size(), 0, s.in(bits::hi(mx) + 1, 64));
        for (size_t i = 0; i < text.size(); ++i) v[i] = text[i];
        construct_im(l, v, 0);
    }
    check_lcp(l, m);
    eq(l.empty(), false, "empty()");
    size_t i = 0;
    for (auto x : l) eq((uint64_t)x, m.lcp[i], "LCP by iteration", i), ++i;
    eq(i, m.n, "number of iterated LCP values");
}
TARGET("lcp_bitcompressed", 200) { standalone<lcp_bitcompressed<>>(s, c); }
TARGET("lcp_bitcompressed_w32", 60) { standalone<lcp_bitcompressed<32>>(s, c); }
TARGET("lcp_byte", 250) { standalone<lcp_byte<>>(s, c); }
TARGET("lcp_wt", 250) { standalone<lcp_wt<>>(s, c); }
TARGET("lcp_dac", 150) { standalone<lcp_dac<>>(s, c); }
TARGET("lcp_dac_8", 100) { standalone<lcp_dac<8, rank_support_v<>>>(s, c); }
TARGET("lcp_dac_dp", 100) { standalone<lcp_dac_dp<>>(s, c); }
TARGET("lcp_vlc", 150) { standalone<lcp_vlc<>>(s, c); }
TARGET("lcp_vlc_gamma", 100) { standalone<lcp_vlc<vlc_vector<coder::elias_gamma, 5>>>(s, c); }
#endif

// representations inside of a suffix tree
template<class Cst> void in_cst(Src& s, Ctx& c)
{
    bool bytes = Cst::alphabet_category::WIDTH == 8;
    auto text = bytes ? btext(s, c, 2000) : itext(s, c, 1000, 20); // the integer alphabets allocate one bit per possible symbol
    TextModel m;
    m.build(text);
    classify(c, m);
    Cst cst;
    if (bytes) {
        construct_im(cst, string(text.begin(), text.end()), 1);
    } else {
        int_vector<> v(text.size(), 0, 64);
        for (size_t i = 0; i < text.size(); ++i) v[i] = text[i];
        construct_im(cst, v, 0);
    }
    check_lcp(cst.lcp, m);
    size_t i = 0;
    for (auto it = cst.lcp.begin(); it != cst.lcp.end(); ++it, ++i) eq((uint64_t)*it, m.lcp[i], "LCP by iteration", i);
    eq(i, m.n, "number of iterated LCP values");
}
typedef csa_wt<wt_huff<>, 8, 16> CB;
typedef csa_sada<enc_vector<>, 4, 8> CS;
typedef csa_wt_int<> CI;
#if PART == 1
TARGET("sct3_support_sada", 200) { in_cst<cst_sct3<CS, lcp_support_sada<>>>(s, c); }
TARGET("sct3_support_sada_rrr", 100) { in_cst<cst_sct3<CB, lcp_support_sada<rrr_vector<>>>>(s, c); }
TARGET("sct3_support_sada_sd", 100) { in_cst<cst_sct3<CB, lcp_support_sada<sd_vector<>>>>(s, c); }
TARGET("sada_support_sada", 150) { in_cst<cst_sada<CS, lcp_support_sada<>>>(s, c); }
TARGET("sct3_support_sada_int", 150) { in_cst<cst_sct3<CI, lcp_support_sada<>>>(s, c); }
TARGET("sada_bitcompressed", 60) { in_cst<cst_sada<CB, lcp_bitcompressed<>>>(s, c); }
TARGET("sada_byte", 60) { in_cst<cst_sada<CB, lcp_byte<>>>(s, c); }
#elif PART == 2
TARGET("sct3_support_tree", 200) { in_cst<cst_sct3<CB, lcp_support_tree<>>>(s, c); }
TARGET("sct3_support_tree_dac", 100) { in_cst<cst_sct3<CB, lcp_support_tree<lcp_dac<>>>>(s, c); }
TARGET("sct3_support_tree_vlc", 100) { in_cst<cst_sct3<CB, lcp_support_tree<lcp_vlc<>>>>(s, c); }
TARGET("sct3_support_tree2", 400) { in_cst<cst_sct3<CB, lcp_support_tree2<>>>(s, c); }
TARGET("sct3_support_tree2_d1", 100) { in_cst<cst_sct3<CB, lcp_support_tree2<1>>>(s, c); }
TARGET("sct3_support_tree2_d64", 400) { in_cst<cst_sct3<CB, lcp_support_tree2<64>>>(s, c); }
TARGET("sct3_support_tree_int", 150) { in_cst<cst_sct3<CI, lcp_support_tree<>>>(s, c); }
TARGET("sct3_support_tree2_int", 200) { in_cst<cst_sct3<CI, lcp_support_tree2<>>>(s, c); }
#elif PART == 3
TARGET("sada_support_tree", 150) { in_cst<cst_sada<CB, lcp_support_tree<>>>(s, c); }
TARGET("sada_support_tree2", 200) { in_cst<cst_sada<CB, lcp_support_tree2<8>>>(s, c); }
TARGET("fully_support", 100) { in_cst<cst_fully<>>(s, c); }
#endif
