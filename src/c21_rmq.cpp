// C21: range minimum and maximum structures return the leftmost extreme position.
#include "pbt.hpp"
#include "gen.hpp"
#include <sdsl/rmq_support.hpp>
#include <sdsl/bp_support.hpp>
#include <sdsl/enc_vector.hpp>
#include <sdsl/dac_vector.hpp>
#include <memory>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

template<class V> struct make_container {
    static std::unique_ptr<V> make(const vector<uint64_t>& x)
    {
        std::unique_ptr<V> v(new V(x.size()));
        for (size_t i = 0; i < x.size(); ++i) (*v)[i] = x[i];
        return v;
    }
};
template<> struct make_container<int_vector<>> {
    static std::unique_ptr<int_vector<>> make(const vector<uint64_t>& x)
    {
        uint64_t m = 0;
        for (auto y : x) m = std::max(m, y);
        std::unique_ptr<int_vector<>> v(new int_vector<>(x.size(), 0, bits::hi(m) + 1));
        for (size_t i = 0; i < x.size(); ++i) (*v)[i] = x[i];
        return v;
    }
};
template<class C> struct make_civ {
    static std::unique_ptr<C> make(const vector<uint64_t>& x)
    {
        return std::unique_ptr<C>(new C(*make_container<int_vector<>>::make(x)));
    }
};
template<> struct make_container<dac_vector<>> : make_civ<dac_vector<>> {};

// what the structure sees of a stored 64 bit number
template<class V> struct as_value {
    static __int128 get(uint64_t x)
    {
        return (__int128)(typename V::value_type)x;
    }
};

template<bool t_min, bool needs_array, class Rmq, class V> void run(Src& s, Ctx& c)
{
    size_t n = s.len(s.chance(1, 12) ? 30000 : 3000);
    Rng r(s.seed());
    vector<uint64_t> x(n);
    size_t mode = s.u(8);
    uint64_t top = s.val(sizeof(typename V::value_type) * 8), unit = 1 + s.u(300);
    bool neg = std::is_signed<typename V::value_type>::value;
    for (size_t i = 0; i < n; ++i) {
        switch (mode) {
            case 0: x[i] = r.upto(top); break;
            case 1: x[i] = r.below(3); break;
            case 2: x[i] = top; break;
            case 3: x[i] = i; break;
            case 4: x[i] = n - i; break;
            case 5: x[i] = i % unit; break;
            case 6: x[i] = unit - i % unit; break;
            case 7: x[i] = (i / unit) % 5 + (i % unit == 0 ? 0 : 3); break;
            default: x[i] = i < n / 2 ? i : n - i;
        }
        if (neg) x[i] -= r.chance(1, 2) ? 0 : 2 * (i % 7);
        if (sizeof(typename V::value_type) < 8) x[i] &= (1ULL << (8 * sizeof(typename V::value_type))) - 1;
    }
    if (s.chance(1, 3)) for (int k = 0; k < 5 and n; ++k) x[r.below(n)] = r.chance(1, 2) ? 0 : x[r.below(n)];
    auto v = make_container<V>::make(x);
    vector<__int128> w(n);
    for (size_t i = 0; i < n; ++i) w[i] = as_value<V>::get(x[i]);
    c.nt(n > 2);
    c.describe([&]() {
        return string(t_min ? "minimum " : "maximum ") + vec(x, 200);
    });
    static const char* modes[] = {"random", "three values", "constant", "ascending", "descending", "saw", "falling saw", "steps", "hill"};
    c.label(modes[mode]);
    Rmq rmq(v.get());
    eq((uint64_t)rmq.size(), n, "size");
    if (!needs_array) {
        for (size_t i = 0; i < n; ++i) x[i] = ~x[i];
        v.reset();
    }
    auto check = [&](size_t l, size_t q) {
        uint64_t g = rmq(l, q);
        size_t best = l;
        for (size_t i = l + 1; i <= q; ++i) if (t_min ? w[i] < w[best] : w[i] > w[best]) best = i;
        if (g < l or g > q) req(false, "position outside of the range", l, q, g);
        eq(g, best, "leftmost extreme position", l, q);
    };
    if (n <= 50) for (size_t l = 0; l < n; ++l) for (size_t q = l; q < n; ++q) check(l, q);
    else {
        uint64_t cost = 0;
        for (int k = 0; k < 1500 and cost < 3000000; ++k) {
            size_t len = r.chance(1, 3) ? r.below(n) : r.chance(1, 2) ? r.below(8) : r.below(700), l = r.below(n), q = std::min(n - 1, l + len);
            if (r.chance(1, 20)) l = 0;
            if (r.chance(1, 20)) q = n - 1;
            check(l, q);
            cost += q - l;
        }
    }
}
typedef int_vector<> IV;
typedef bp_support_g<> BG;
typedef bp_support_gg<> BGG;
typedef bp_support_g<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, range_maximum_support_sparse_table<>, 64> BG64;
typedef bp_support_gg<nearest_neighbour_dictionary<30>, rank_support_v5<>, select_support_mcl<>, 64> BGG64;
typedef bp_support_sada<32, 4> BS32;
#define T(name, mn, need, V, ...) TARGET(name, 150) { run<mn, need, __VA_ARGS__, V>(s, c); }
#if PART == 0
T("sparse_table_min", true, true, IV, rmq_support_sparse_table<>)
T("sparse_table_max", false, true, IV, rmq_support_sparse_table<IV, false>)
T("range_maximum_sparse_table", false, true, IV, range_maximum_support_sparse_table<>)
T("sparse_table_min_int8", true, true, int_vector<8>, rmq_support_sparse_table<int_vector<8>>)
T("sparse_table_max_signed", false, true, vector<int64_t>, rmq_support_sparse_table<vector<int64_t>, false>)
T("sparse_table_min_u16", true, true, vector<uint16_t>, rmq_support_sparse_table<vector<uint16_t>>)
T("sparse_table_min_dac", true, true, dac_vector<>, rmq_support_sparse_table<dac_vector<>>)
T("sct_min", true, false, IV, rmq_succinct_sct<>)
T("sct_max", false, false, IV, rmq_succinct_sct<false>)
T("range_maximum_sct", false, false, IV, range_maximum_sct<>::type)
T("sct_min_signed", true, false, vector<int64_t>, rmq_succinct_sct<>)
T("sct_max_signed", false, false, vector<int64_t>, rmq_succinct_sct<false>)
T("sct_max_dac", false, false, dac_vector<>, rmq_succinct_sct<false>)
#else
T("sct_min_g", true, false, IV, rmq_succinct_sct<true, BG>)
T("sct_max_gg", false, false, IV, rmq_succinct_sct<false, BGG>)
T("sct_min_gg64", true, false, IV, rmq_succinct_sct<true, BGG64>)
T("sct_max_g64", false, false, IV, rmq_succinct_sct<false, BG64>)
T("sct_min_sada32", true, false, IV, rmq_succinct_sct<true, BS32>)
T("sada_min", true, false, IV, rmq_succinct_sada<>)
T("sada_max", false, false, IV, rmq_succinct_sada<false>)
T("range_maximum_sada", false, false, IV, range_maximum_support_sada<>::type)
T("sada_min_signed", true, false, vector<int64_t>, rmq_succinct_sada<>)
T("sada_min_sada32", true, false, IV, rmq_succinct_sada<true, BS32>)
T("sada_min_g", true, false, IV, rmq_succinct_sada<true, BG>)
T("sada_max_gg", false, false, IV, rmq_succinct_sada<false, BGG>)
T("sada_min_gg64", true, false, IV, rmq_succinct_sada<true, BGG64>)
T("sada_max_g64", false, false, IV, rmq_succinct_sada<false, BG64>)
#endif
