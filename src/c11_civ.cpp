// C11: compressed integer vectors return the stored integers.
#include "gen.hpp"
#include <sdsl/vectors.hpp>
#include <sdsl/bit_vectors.hpp>
#include <sdsl/int_vector_buffer.hpp>
using namespace sdsl;
using namespace pbt;
using std::vector;

template<class V> void compare(const V& x, const vector<uint64_t>& v, Src& s, const char* how)
{
    size_t n = v.size();
    eq(x.size(), n, how);
    eq(x.empty(), n == 0, "empty()");
    for (size_t i = 0; i < n; ++i) eq(x[i], v[i], how, i);
    auto b = x.begin(), e = x.end();
    eq(e - b, n, "end()-begin()");
    size_t i = 0;
    for (auto it = b; it != e; ++it, ++i) eq(*it, v[i], "forward iteration", i);
    eq(i, n, "iteration length");
    for (auto it = e; it != b;) {
        --it;
        --i;
        eq(*it, v[i], "backward iteration", i);
    }
    Rng r(s.seed());
    for (int k = 0; k < 20 and n; ++k) {
        size_t i = r.below(n), j = r.below(n);
        auto it = b + i;
        eq(*it, v[i], "*(begin+i)", i);
        it += (int64_t)j - (int64_t)i;
        eq(*it, v[j], "random jump", i, j);
        eq(it - b, j, "iterator distance");
        eq(b[j], v[j], "begin[j]");
        req((b + i < b + j) == (i < j), "iterator order");
    }
}
static vector<uint64_t> source(Src& s, unsigned w)
{
    uint64_t mask = w == 64 ? ~0ULL : (1ULL << w) - 1;
    auto v = gen::ints(s, s.chance(1, 12) ? 9000 : 700, w);
    if (s.chance(1, 4)) { // slowly growing (what the differential coders are made for)
        Rng r(s.seed());
        uint64_t x = s.val(w), g = 1 + s.u(20);
        for (auto& y : v) {
            y = x & mask;
            x += r.below(16) ? 1 : r.below(g);
        }
    }
    if (s.chance(1, 3) and v.size()) v[s.pos(v.size())] = mask;
    if (s.chance(1, 3) and v.size()) v[s.pos(v.size())] = 0;
    return v;
}
template<class V, class = void> struct extra {
    static void check(const V&, const vector<uint64_t>&, Src&) {}
};
template<class C, uint32_t D, uint8_t W> struct extra<enc_vector<C, D, W>> {
    static void check(const enc_vector<C, D, W>& x, const vector<uint64_t>& v, Src&)
    {
        eq(x.get_sample_dens(), D, "sample density");
        vector<uint64_t> buf(D + 1);
        for (size_t i = 0; i * D < v.size(); ++i) {
            eq(x.sample(i), v[i * D], "sample", i);
            size_t m = std::min<size_t>(D, v.size() - i * D);
            buf.assign(D + 1, 99);
            x.get_inter_sampled_values(i, buf.data());
            for (size_t j = 0; j < m; ++j) eq(buf[j] + x.sample(i), v[i * D + j], "inter-sampled value", i, j);
        }
    }
};
template<class V> struct is_vlc : std::false_type {};
template<class C, uint32_t D, uint8_t W> struct is_vlc<vlc_vector<C, D, W>> : std::true_type {};
template<class V> void run(Src& s, Ctx& c, const char* name, unsigned wmax)
{
    unsigned w = s.chance(1, 3) ? wmax : s.in(1, wmax);
    auto v = source(s, w);
    c.nt(v.size() > 1);
    c.describe([&] { return std::string(name) + " values " + vec(v); });
    if (v.size() > 2000) c.label("long");
    if (is_vlc<V>::value and std::find(v.begin(), v.end(), ~0ULL) != v.end()) {
        // the one value this representation does not support is refused
        bool thrown = false;
        try {
            V x(v);
        } catch (std::logic_error&) {
            thrown = true;
        }
        req(thrown, "vlc_vector must refuse 2^64-1");
        for (auto& y : v) if (y == ~0ULL) y = ~0ULL - 1;
    }
    switch (s.pick({3, 2, 2, 1})) {
        case 0: {
            V x(v);
            compare(x, v, s, "from std::vector");
            extra<V>::check(x, v, s);
            break;
        }
        case 1: {
            int_vector<> iv(v.size(), 0, w);
            for (size_t i = 0; i < v.size(); ++i) iv[i] = v[i];
            V x(iv);
            compare(x, v, s, "from int_vector");
            extra<V>::check(x, v, s);
            break;
        }
        case 2: {
            std::string f = ram_file_name("c11");
            {
                int_vector<> iv(v.size(), 0, w);
                for (size_t i = 0; i < v.size(); ++i) iv[i] = v[i];
                store_to_file(iv, f);
            }
            {
                int_vector_buffer<> buf(f, std::ios::in, 1 + s.u(4000));
                V x(buf);
                compare(x, v, s, "from int_vector_buffer");
                extra<V>::check(x, v, s);
            }
            ram_fs::remove(f);
            break;
        }
        default: { // replacing old content
            auto v2 = source(s, w);
            for (auto& y : v2) if (y == ~0ULL) --y;
            V x(v2);
            x = V(v);
            compare(x, v, s, "after assignment");
            extra<V>::check(x, v, s);
        }
    }
    if (s.chance(1, 10)) {
        V d;
        eq(d.size(), 0, "default constructed size");
        req(d.empty(), "default constructed empty");
        req(!(d.begin() != d.end()), "default constructed range");
    }
}
#define CIV(label, weight, wmax, ...) TARGET(label, weight * 10) { run<__VA_ARGS__>(s, c, label, wmax); }
#if PART==0
CIV("enc_delta128", 100, 64, enc_vector<>)
CIV("enc_delta2", 60, 64, enc_vector<coder::elias_delta, 2>)
CIV("enc_gamma32", 60, 64, enc_vector<coder::elias_gamma, 32>)
CIV("enc_fib64", 60, 64, enc_vector<coder::fibonacci, 64>)
CIV("enc_comma7", 40, 64, enc_vector<coder::comma<4>, 7>)
CIV("enc_delta500_w64", 40, 64, enc_vector<coder::elias_delta, 500, 64>)
CIV("enc_fib16_w32", 40, 32, enc_vector<coder::fibonacci, 16, 32>)
CIV("enc_comma2_3", 40, 64, enc_vector<coder::comma<2>, 3>)
#elif PART==1
CIV("vlc_delta128", 100, 64, vlc_vector<>)
CIV("vlc_delta2", 60, 64, vlc_vector<coder::elias_delta, 2>)
CIV("vlc_gamma32", 60, 64, vlc_vector<coder::elias_gamma, 32>)
CIV("vlc_fib64", 60, 64, vlc_vector<coder::fibonacci, 64>)
CIV("vlc_comma7", 40, 64, vlc_vector<coder::comma<8>, 7>)
CIV("vlc_delta500_w64", 40, 64, vlc_vector<coder::elias_delta, 500, 64>)
CIV("vlc_fib16_w32", 40, 64, vlc_vector<coder::fibonacci, 16, 32>)
CIV("vlc_comma2_3", 40, 64, vlc_vector<coder::comma<2>, 3>)
#else
CIV("dac4", 100, 64, dac_vector<>)
CIV("dac1", 40, 64, dac_vector<1>)
CIV("dac8", 60, 64, dac_vector<8>)
CIV("dac7_v5", 60, 64, dac_vector<7, rank_support_v5<>>)
CIV("dac16_scan", 30, 64, dac_vector<16, rank_support_scan<>>)
CIV("dac63", 40, 64, dac_vector<63>)
CIV("dac32", 40, 64, dac_vector<32>)
typedef dac_vector_dp<> dp_t;
typedef dac_vector_dp<rrr_vector<63>> dprrr_t;
typedef dac_vector_dp<bit_vector_il<512>> dpil_t;
CIV("dacdp", 100, 64, dp_t)
CIV("dacdp_rrr", 60, 64, dprrr_t)
CIV("dacdp_il", 40, 64, dpil_t)
TARGET("dacdp_levels", 800)
{
    unsigned w = s.in(1, 64);
    auto v = source(s, w);
    int lev = s.in(1, 64);
    c.nt(v.size() > 1);
    c.describe([&] { return "max_levels " + str(lev) + " values " + vec(v); });
    dac_vector_dp<> x(v, lev);
    req((int)x.levels() <= lev, "number of levels", x.levels(), lev);
    compare(x, v, s, "dac_vector_dp");
    dac_vector_dp<rrr_vector<15>> y(v, lev);
    compare(y, v, s, "dac_vector_dp rrr");
}
#endif
