// C10: self-delimiting codes round-trip.
#include "gen.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/coder.hpp>
using namespace sdsl;
using namespace pbt;
using std::vector;

// values of the coder's domain: [0,2^64) where 0 stands for 2^64 in the Elias and Fibonacci codes
static vector<uint64_t> values(Src& s, size_t max)
{
    vector<uint64_t> v;
    size_t segs = 1 + s.u(4);
    while (segs--) {
        size_t n = s.len(max);
        switch (s.pick({4, 3, 3, 3, 2})) {
            case 0: v.insert(v.end(), n, 1 + (s.u(3) == 0 ? s.u(3) : 0)); break;  // runs of (mostly) ones
            case 1: {
                Rng r(s.seed());
                uint64_t m = 1ULL << s.u(8);
                for (size_t i = 0; i < n; ++i) v.push_back(r.below(m) + (r.below(8) ? 1 : 0));
                break;
            }
            case 2: {
                auto w = gen::ints(s, std::min<size_t>(max, 300), s.in(1, 64));
                v.insert(v.end(), w.begin(), w.end());
                break;
            }
            case 3: { // mostly ones with rare others
                Rng r(s.seed());
                uint64_t d = 2 + r.below(60);
                for (size_t i = 0; i < n; ++i) v.push_back(r.below(d) ? 1 : r.next() >> r.below(64));
                break;
            }
            default:
                for (size_t i = 0; i < std::min<size_t>(n, 40); ++i) v.push_back(s.val());
        }
    }
    return v;
}

template<class C> void by_hand(Src& s, Ctx& c, const char* name)
{
    auto v = values(s, s.chance(1, 20) ? 3000 : 140);
    size_t start = s.chance(1, 3) ? 0 : s.u(200);
    c.describe([&] { return std::string(name) + " from bit " + str(start) + " values " + vec(v); });
    size_t n = v.size();
    vector<size_t> at(n + 1);
    at[0] = start;
    bool wide = false;
    for (size_t i = 0; i < n; ++i) {
        size_t l = C::encoding_length(v[i]);
        req(l >= C::min_codeword_length, "code length below the minimum", i, v[i], l);
        at[i + 1] = at[i] + l;
        wide = wide or l > 1;
    }
    c.nt(n > 1 and wide);
    size_t words = at[n] / 64 + 3;
    bool tight = s.b();
    if (tight) words = at[n] / 64 + 2; // one padding word as an int_vector has it
    vector<uint64_t> buf(words), before;
    Rng r(s.seed());
    int fillkind = s.u(2);
    for (auto& x : buf) x = fillkind == 0 ? 0 : fillkind == 1 ? ~0ULL : r.next();
    before = buf;
    uint64_t* z = buf.data() + start / 64;
    uint8_t off = start % 64;
    for (size_t i = 0; i < n; ++i) {
        C::encode(v[i], z, off);
        eq((z - buf.data()) * 64 + off, at[i + 1], "bits written differ from encoding_length", i, v[i]);
    }
    for (size_t p = 0; p < words * 64; ++p) {
        if (p >= start and p < at[n]) continue;
        eq((buf[p / 64] >> (p % 64)) & 1, (before[p / 64] >> (p % 64)) & 1, "bit outside the code words altered", p);
    }
    // decoding everything
    vector<uint64_t> out(n + 1, 7), sum(n + 1, 7), pre(n + 1, 0);
    for (size_t i = 0; i < n; ++i) pre[i + 1] = pre[i] + v[i];
    uint64_t ret = C::template decode<false, true, uint64_t*>(buf.data(), start, n, out.data());
    for (size_t i = 0; i < n; ++i) eq(out[i], v[i], "decoded value", i);
    eq(out[n], 7, "decode wrote too many values");
    if (n) eq(ret, v[n - 1], "decode returns the last value");
    ret = C::template decode<true, true, uint64_t*>(buf.data(), start, n, sum.data());
    for (size_t i = 0; i < n; ++i) eq(sum[i], pre[i + 1], "decoded running sum", i);
    if (n) eq(ret, pre[n], "decode<sum> returns the sum");
    // from any code word on
    for (int k = 0; k < 60 and n; ++k) {
        size_t i = k == 0 ? 0 : r.below(n), m = k == 0 ? n : 1 + r.below(n - i);
        if (k % 3 == 1) m = std::min<size_t>(n - i, 1 + r.below(70));
        uint64_t want = pre[i + m] - pre[i];
        eq(C::decode_prefix_sum(buf.data(), at[i], m), want, "decode_prefix_sum", i, m);
        // (the variant with an end is documented for positive integers only)
        if (std::find(v.begin() + i, v.begin() + i + m, 0) == v.begin() + i + m)
            eq(C::decode_prefix_sum(buf.data(), at[i], at[i + m], m), want, "decode_prefix_sum with end", i, m);
        uint64_t x = C::template decode<true, false, uint64_t*>(buf.data(), at[i], m, nullptr);
        eq(x, want, "decode<sum> from the middle", i, m);
        x = C::template decode<false, false, uint64_t*>(buf.data(), at[i], 1, nullptr);
        eq(x, v[i], "single value", i);
    }
    eq(C::decode_prefix_sum(buf.data(), start, 0), 0, "empty prefix sum");
    eq(C::decode_prefix_sum(buf.data(), start, start, 0), 0, "empty prefix sum with end");
}

template<class C> void vectors(Src& s, Ctx& c, const char* name)
{
    unsigned w = s.chance(1, 4) ? 64 : s.in(1, 64);
    auto src = s.b() ? values(s, 300) : gen::ints(s, 1200, w);
    uint64_t mask = w == 64 ? ~0ULL : (1ULL << w) - 1;
    for (auto& x : src) x &= mask;
    c.describe([&] { return std::string(name) + " vector width " + str(w) + " values " + vec(src); });
    size_t n = src.size();
    c.nt(n > 1);
    int_vector<> v(n, 0, w);
    for (size_t i = 0; i < n; ++i) v[i] = src[i];
    auto zdata = s.b() ? values(s, 30) : vector<uint64_t>();
    int_vector<> z(zdata.size(), 0, s.in(1, 64));
    for (size_t i = 0; i < zdata.size(); ++i) z[i] = zdata[i];
    C::encode(v, z);
    size_t bits_want = 0;
    vector<size_t> at(1, 0);
    bool elias = C::min_codeword_length == 1 or (C::min_codeword_length == 2 and C::encoding_length(0) == 93); // 0 stands for 2^width there
    for (auto x : src) {
        uint64_t y = x == 0 and elias and w < 64 ? 1ULL << w : x;
        bits_want += C::encoding_length(y);
        at.push_back(bits_want);
    }
    eq(z.bit_size(), bits_want, "encoded bits");
    int_vector<> out(s.u(10), 1, s.in(1, 64));
    C::decode(z, out);
    eq(out.size(), n, "decoded length");
    eq(out.width(), w, "decoded width");
    for (size_t i = 0; i < n; ++i) eq((uint64_t)out[i], src[i], "decoded element", i);
    for (size_t i = 0; i < n; ++i) eq((uint64_t)v[i], src[i], "source element changed", i);
    // decoding in the middle of the encoded vector
    Rng r(s.seed());
    for (int k = 0; k < 20 and n; ++k) {
        size_t i = r.below(n), m = 1 + r.below(n - i);
        uint64_t want = 0;
        for (size_t j = i; j < i + m; ++j) want += src[j] == 0 and elias and w < 64 ? 1ULL << w : src[j];
        eq(C::decode_prefix_sum(z.data(), at[i], m), want, "decode_prefix_sum on vector", i, m);
        if (std::find(src.begin() + i, src.begin() + i + m, 0) == src.begin() + i + m)
            eq(C::decode_prefix_sum(z.data(), at[i], at[i + m], m), want, "decode_prefix_sum with end on vector", i, m);
    }
}
#define COD(type, label, weight) \
    TARGET(label, weight) { by_hand<type>(s, c, label); } \
    TARGET(label "_vec", weight) { vectors<type>(s, c, label); }
COD(coder::elias_delta, "delta", 4000)
COD(coder::elias_gamma, "gamma", 4000)
COD(coder::fibonacci, "fibonacci", 4000)
COD(coder::comma<2>, "comma2", 1500)
COD(coder::comma<3>, "comma3", 1000)
COD(coder::comma<5>, "comma5", 1000)
COD(coder::comma<8>, "comma8", 1000)
COD(coder::comma<16>, "comma16", 1000)
COD(coder::comma<31>, "comma31", 600)
COD(coder::comma<32>, "comma32", 600)
