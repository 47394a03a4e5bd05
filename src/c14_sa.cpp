// C14: suffix array, inverse suffix array and BWT construction are correct.
#include "textgen.hpp"
#include <sdsl/construct.hpp>
#include <sdsl/construct_sa.hpp>
#include <sdsl/construct_bwt.hpp>
#include <sdsl/construct_isa.hpp>
#include <sdsl/qsufsort.hpp>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;
#ifndef QBITS
#define QBITS 63
#endif

// exact linear-time characterisation of the suffix array of t
template<class SA> void check_sa(const SA& sa, const vector<uint64_t>& t, vector<uint64_t>& isa)
{
    size_t n = t.size();
    eq(sa.size(), n, "length of the suffix array");
    isa.assign(n, ~0ULL);
    for (size_t i = 0; i < n; ++i) {
        uint64_t p = sa[i];
        req(p < n, "suffix array entry out of range", i, p);
        req(isa[p] == ~0ULL, "suffix array entry occurs twice", i, p);
        isa[p] = i;
    }
    for (size_t i = 1; i < n; ++i) {
        uint64_t a = sa[i - 1], b = sa[i];
        req(t[a] <= t[b], "suffixes out of order (first symbol)", i, a, b);
        if (t[a] == t[b]) req(a + 1 == n or (b + 1 < n and isa[a + 1] < isa[b + 1]), "suffixes out of order", i, a, b);
    }
}
static size_t sizes(Src& s)
{
    return s.chance(1, 15) ? 20000 : 1500;
}
static cache_config config(Src& s, Ctx& c)
{
    bool ram = !s.chance(1, 4);
    c.label(ram ? "in-memory cache" : "disk cache");
    return cache_config(false, ram ? string("@") : scratch());
}
template<uint8_t W> void derived(cache_config& cc, const vector<uint64_t>& t, const vector<uint64_t>& isa)
{
    size_t n = t.size();
    construct_bwt<W>(cc);
    int_vector<W> bwt;
    req(load_from_cache(bwt, key_bwt_trait<W>::KEY_BWT, cc), "BWT was not stored in the cache");
    eq(bwt.size(), n, "length of the BWT");
    for (size_t p = 0; p < n; ++p) eq((uint64_t)bwt[isa[p]], t[(p + n - 1) % n], "BWT", isa[p]);
    construct_isa(cc);
    int_vector<> x;
    req(load_from_cache(x, conf::KEY_ISA, cc), "ISA was not stored in the cache");
    eq(x.size(), n, "length of the ISA");
    for (size_t p = 0; p < n; ++p) eq((uint64_t)x[p], isa[p], "ISA", p);
    util::delete_all_files(cc.file_map);
}
template<uint8_t W> void put(cache_config& cc, const vector<uint64_t>& t, unsigned w)
{
    int_vector<W> v(t.size(), 0, w);
    for (size_t i = 0; i < t.size(); ++i) v[i] = t[i];
    store_to_cache(v, key_text_trait<W>::KEY_TEXT, cc);
}
static void byte_case(Ctx& c, Src& s, byte_sa_algo_type algo, size_t max)
{
    auto t = byte_text(s, max);
    c.describe([&] { return "text " + text_str(t, true); });
    c.nt(t.size() > 2);
    t.push_back(0);
    auto cc = config(s, c);
    put<8>(cc, t, 8);
    construct_config::byte_algo_sa = algo;
    construct_sa<8>(cc);
    construct_config::byte_algo_sa = LIBDIVSUFSORT;
    int_vector<> sa;
    req(load_from_cache(sa, conf::KEY_SA, cc), "SA was not stored in the cache");
    vector<uint64_t> isa;
    check_sa(sa, t, isa);
    int_vector<8> same;
    req(load_from_cache(same, conf::KEY_TEXT, cc) and same.size() == t.size(), "text gone from the cache");
    for (size_t i = 0; i < t.size(); ++i) eq(same[i], t[i], "text changed", i);
    derived<8>(cc, t, isa);
}
TARGET("byte_divsufsort", 700) { byte_case(c, s, LIBDIVSUFSORT, sizes(s)); }
TARGET("byte_se_sais", 1200) { byte_case(c, s, SE_SAIS, sizes(s)); }
TARGET("byte_se_sais_large", 4) { byte_case(c, s, SE_SAIS, 400000); }
TARGET("byte_divsufsort_large", 4) { byte_case(c, s, LIBDIVSUFSORT, 400000); }

template<uint8_t W> void calc(Src& s, Ctx& c)
{
    auto t = byte_text(s, sizes(s));
    bool sentinel = s.b();
    c.describe([&] { return "calculate_sa, text " + text_str(t, true) + (sentinel ? " with sentinel" : ""); });
    c.nt(t.size() > 2);
    if (sentinel) t.push_back(0);
    size_t n = t.size();
    vector<unsigned char> txt(t.begin(), t.end());
    txt.push_back(0);
    unsigned need = bits::hi(n) + 1;
    unsigned w = W ? W : s.b() ? need : s.in(need, 64);
    int_vector<W> sa(n, s.val(), w);
    algorithm::calculate_sa(txt.data(), n, sa);
    if (W == 0 and n > 1) eq(sa.width(), w, "width of the result");
    vector<uint64_t> isa;
    check_sa(sa, t, isa);
}
TARGET("calculate_sa_w0", 500) { calc<0>(s, c); }
TARGET("calculate_sa_w32", 200) { calc<32>(s, c); }
TARGET("calculate_sa_w64", 200) { calc<64>(s, c); }

static vector<uint64_t> itext(Src& s, Ctx& c, size_t max, unsigned maxbits)
{
    uint64_t maxsym = s.b() ? bits::lo_set[s.in(1, maxbits)] : std::max<uint64_t>(1, s.val(maxbits));
    auto t = int_text(s, max, maxsym);
    c.describe([&] { return "integer text " + vec(t); });
    c.nt(t.size() > 2);
    t.push_back(0);
    return t;
}
static unsigned width_for(Src& s, const vector<uint64_t>& t, unsigned maxw)
{
    uint64_t mx = *std::max_element(t.begin(), t.end());
    unsigned need = bits::hi(mx) + 1;
    return s.b() ? need : s.in(need, std::max(need, maxw));
}
TARGET("int_qsufsort", 1500)
{
    auto t = itext(s, c, sizes(s), QBITS);
    auto cc = config(s, c);
    put<0>(cc, t, width_for(s, t, 64));
    construct_sa<0>(cc);
    int_vector<> sa;
    req(load_from_cache(sa, conf::KEY_SA, cc), "SA was not stored in the cache");
    vector<uint64_t> isa;
    check_sa(sa, t, isa);
    derived<0>(cc, t, isa);
}
TARGET("int_qsufsort_text", 600)
{
    auto t = itext(s, c, sizes(s), QBITS);
    int_vector<> sa(s.u(5), 1, s.in(1, 64));
    vector<uint64_t> isa;
    if (s.b()) {
        int_vector<> x(t.size(), 0, width_for(s, t, 64));
        for (size_t i = 0; i < t.size(); ++i) x[i] = t[i];
        qsufsort::construct_sa(sa, x);
        check_sa(sa, t, isa);
    } else {
        qsufsort::construct_sa(sa, t);
        check_sa(sa, t, isa);
    }
}
TARGET("int_qsufsort_bytes", 500)   // plain files with 1, 2, 4, 8 byte symbols (including the final 0)
{
    unsigned nb = 1 << s.u(3);
    auto t = itext(s, c, sizes(s), std::min<unsigned>(8 * nb, QBITS));
    string f = "@qs" + pbt::str(s.u(3));
    {
        osfstream out(f, std::ios::binary | std::ios::trunc | std::ios::out);
        for (auto x : t) out.write((char*)&x, nb);
    }
    int_vector<> sa;
    qsufsort::construct_sa(sa, f.c_str(), nb);
    sdsl::remove(f);
    vector<uint64_t> isa;
    check_sa(sa, t, isa);
}
TARGET("int_qsufsort_large", 3)
{
    auto t = itext(s, c, 200000, QBITS);
    auto cc = config(s, c);
    put<0>(cc, t, width_for(s, t, 64));
    construct_sa<0>(cc);
    int_vector<> sa;
    req(load_from_cache(sa, conf::KEY_SA, cc), "SA was not stored in the cache");
    vector<uint64_t> isa;
    check_sa(sa, t, isa);
    derived<0>(cc, t, isa);
}
TARGET("int_rejects", 60)   // documented preconditions are checked
{
    auto t = itext(s, c, 200, 20);
    bool zero_inside = s.b();
    if (zero_inside) {
        if (t.size() < 2) return;
        t[s.pos(t.size() - 1)] = 0;
    } else {
        if (t.size() < 2) return;
        t.back() = 1 + s.u(5);
    }
    int_vector<> sa;
    bool thrown = false;
    try {
        qsufsort::construct_sa(sa, t);
    } catch (std::logic_error&) {
        thrown = true;
    }
    req(thrown, zero_inside ? "0 inside the text accepted" : "missing final 0 accepted");
}
