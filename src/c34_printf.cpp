// C34: csXprintf prints the members of an index as the format string says.
#include "cstcommon.hpp"
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

namespace
{
string pad(string t, uint64_t w)
{
    while (t.size() < w) t.insert(t.begin(), ' ');
    return t;
}
template<class Idx> void print(Src& s, Ctx& c, size_t max)
{
    const bool is_byte = index_is_byte<Idx>::value, is_cst = std::is_same<typename Idx::index_category, cst_tag>::value;
    auto t = index_text<Idx>(s, c, max, 16);
    if (t.empty() and is_cst) t.push_back(7);
    TextModel m;
    m.build(t);
    Idx idx;
    index_build(idx, t);
    bool own = s.b();
    char sentinel = own ? (char)s.in(33, 126) : is_byte ? '$' : '0';
    auto symbol = [&](uint64_t x, uint64_t w) {
        if (x == 0) return pad(string(1, sentinel), w);
        return pad(is_byte ? string(1, (char)x) : str(x), w);
    };
    string format;
    vector<string> want(m.n);
    auto lit = [&](const string& x) {
        format += x;
        for (auto& r : want) r += x;
    };
    size_t parts = s.len(9), tokens = 0;
    for (size_t p = 0; p < parts; ++p) {
        if (s.chance(2, 5)) {
            static const char* const text[] = {" ", "|", "SA: ", "\t", "a", "I", ":", "12", "-", "\\n", "T "};
            lit(text[s.u(10)]);
            continue;
        }
        bool has_w = s.b();
        uint64_t w = has_w ? (s.chance(1, 6) ? s.in(1, 130) : s.in(1, 12)) : 0, W = 0;
        string spec = has_w ? str(w) : "";
        char tok = "ISsPpLBT%"[s.u(8)];
        if (tok == 'L' and !is_cst) tok = 'S';
        if (tok == '%') spec = "";
        if (tok == 'T' and has_w and s.b()) {
            W = s.in(1, 7);
            spec += ":" + str(W);
        }
        format += "%" + spec + tok;
        ++tokens;
        for (size_t i = 0; i < m.n; ++i) {
            string& r = want[i];
            switch (tok) {
                case 'I': r += pad(str((uint64_t)i), w); break;
                case 'S': r += pad(str(m.sa[i]), w); break;
                case 's': r += pad(str(m.isa[i]), w); break;
                case 'P': r += pad(str(m.isa[(m.sa[i] + 1) % m.n]), w); break;
                case 'p': r += pad(str(m.isa[(m.sa[i] + m.n - 1) % m.n]), w); break;
                case 'L': r += pad(str(m.lcp[i]), w); break;
                case 'B': r += symbol(m.t[(m.sa[i] + m.n - 1) % m.n], w); break;
                case 'T':
                    for (uint64_t k = 0; k < m.n and (!has_w or k < w); ++k) r += symbol(m.t[(m.sa[i] + k) % m.n], W);
                    break;
                default: r += "%";
            }
        }
    }
    c.describe([&]() { return "format " + format; });
    string all;
    for (auto& r : want) all += r + "\n";
    std::ostringstream out;
    if (own) csXprintf(out, format, idx, sentinel);
    else csXprintf(out, format, idx);
    string got = out.str();
    if (got != all) {
        size_t k = 0;
        while (k < got.size() and k < all.size() and got[k] == all[k]) ++k;
        size_t a = k > 20 ? k - 20 : 0;
        fail("format \"" + format + "\": output differs at character " + str((uint64_t)k) + ": got ..." + got.substr(a, 60) + "... want ..." + all.substr(a, 60) + "...");
    }
    c.nt(tokens and m.n > 2);
}
template<class Idx> void run(Src& s, Ctx& c) { print<Idx>(s, c, 150); }
}
typedef cst_sct3<csa_wt<wt_int<>, 4, 4, SS, IS, int_alphabet<>>, lcp_dac<>> sct3_int;
#define T(name, n, ...) TARGET(#name, n) { run<__VA_ARGS__>(s, c); }
#if PART == 0
T(csa_wt, 600, csa_wt<wt_huff<>, 4, 8>)
T(csa_sada, 600, csa_sada<enc_vector<>, 4, 8>)
T(csa_bitcompressed, 600, csa_bitcompressed<>)
T(csa_wt_int, 600, csa_wt_int<wt_int<>, 4, 8>)
T(csa_sada_int, 600, csa_sada_int<enc_vector<>, 4, 8>)
T(csa_bitcompressed_int, 600, csa_bitcompressed<int_alphabet<>>)
#else
T(cst_sct3, 200, cst_sct3<>)
T(cst_sada, 200, cst_sada<>)
T(cst_fully, 120, cst_fully<csa_wt<wt_huff<>, 4, 8>, 4>)
T(cst_sct3_int, 200, sct3_int)
#endif
