// C03: encodings store exactly the source bits.
#include "bvgen.hpp"
#include <sdsl/vectors.hpp>
using namespace sdsl;
using namespace pbt;
using std::vector;

template<class BV> void same(const BV& x, const bvgen::Input& in, Src& s, const char* how)
{
    size_t n = in.n();
    eq(x.size(), n, how);
    for (auto i : bvgen::positions(s, n, 6000, 1500)) if (i < n) eq((uint64_t)x[i], in.b[i], "bit", i);
    if (n <= 6000) {
        auto it = x.begin(), e = x.end();
        eq(e - it, n, "end()-begin()");
        for (size_t i = 0; i < n; ++i, ++it) {
            req(it != e, "iterator reached end early", i);
            eq((uint64_t)*it, in.b[i], "bit through iterator", i);
        }
        req(it == e, "iterator end");
    }
    if (n) {
        Rng r(s.seed());
        for (int k = 0; k < 60; ++k) {
            size_t p = k < 30 ? r.below(n) : s.pos(n);
            unsigned len = 1 + r.below(std::min<size_t>(64, n - p));
            if (k % 4 == 0) len = std::min<size_t>(64, n - p);
            uint64_t want = 0;
            for (unsigned j = 0; j < len; ++j) want |= (uint64_t)in.b[p + j] << j;
            eq(x.get_int(p, len), want, "get_int", p, len);
        }
    }
}

template<class BV> void run(Src& s, Ctx& c, size_t max, const char* name)
{
    auto in = bvgen::make(s, max);
    size_t m = in.ones[in.n()];
    c.nt(m > 0 and m < in.n());
    if (in.n() > 4096) c.label("long");
    c.describe([&] { return std::string(name) + " " + gen::bitstr(in.b); });
    BV x(in.bv);
    same(x, in, s, "size");
    if (s.chance(1, 4)) { // an object that is replaced by assignment stores the new bits
        auto in2 = bvgen::make(s, 500);
        BV y(in2.bv);
        x = BV(in2.bv);
        same(x, in2, s, "size after assignment");
    }
}

#define ENC(type, label, weight) TARGET(label, weight * 16) { run<type>(s, c, s.chance(1, 10) ? 70000 : 3000, label); }
#define ENCNS ENC
#include "bvtypes.hpp"

#if PART==3
template<class SD> void check_sorted(Src& s, const gen::Bits& b, const vector<uint64_t>& pos)
{
    bvgen::Input in;
    in.b = b;
    in.b.resize(pos.empty() ? 0 : pos.back() + 1);
    SD x(pos.begin(), pos.end());
    same(x, in, s, "size (from sorted range)");
    for (size_t i = 0; i < pos.size(); ++i) eq(typename SD::select_1_type(&x)(i + 1), pos[i], "position from sorted range", i);
}
TARGET("sd_build", 3000)
{
    gen::Bits b = gen::bits(s, s.chance(1, 10) ? 40000 : 1500);
    vector<uint64_t> pos;
    for (size_t i = 0; i < b.size(); ++i) if (b[i]) pos.push_back(i);
    c.nt(pos.size() > 1);
    c.describe([&] { return "sorted positions " + vec(pos) + " of " + str(b.size()); });
    bvgen::Input in;
    in.b = b;
    check_sorted<sd_vector<>>(s, b, pos);
    { // other integer containers as source
        int_vector<> iv(pos.size(), 0, bits::hi(b.size()) + 1);
        for (size_t i = 0; i < pos.size(); ++i) iv[i] = pos[i];
        bvgen::Input in2;
        in2.b = b;
        in2.b.resize(pos.empty() ? 0 : pos.back() + 1);
        sd_vector<> x(iv.begin(), iv.end());
        same(x, in2, s, "size (from int_vector range)");
    }
    { // incremental
        sd_vector_builder bd(b.size(), pos.size());
        size_t k = 0;
        for (auto p : pos) {
            eq(bd.items(), k++, "builder items");
            bd.set(p);
            eq(bd.tail(), p + 1, "builder tail");
            if (s.chance(1, 40)) {
                sd_vector_builder other;
                bd.swap(other);
                other.swap(bd);
            }
        }
        eq(bd.size(), b.size(), "builder size");
        eq(bd.capacity(), pos.size(), "builder capacity");
        bool rrr = s.chance(1, 4);
        if (rrr) {
            sd_vector<rrr_vector<63>> x(bd);
            same(x, in, s, "size (builder, rrr)");
        } else {
            sd_vector<> x(bd);
            same(x, in, s, "size (builder)");
        }
        eq(bd.items(), 0, "builder is cleared");
        eq(bd.capacity(), 0, "builder is cleared");
    }
    // rejections
    if (pos.size() >= 2) {
        auto bad = pos;
        size_t i = s.u(pos.size() - 2), j = i + 1 + s.u(pos.size() - 2 - i);
        std::swap(bad[i], bad[j]);
        bool thrown = false;
        try {
            sd_vector<> x(bad.begin(), bad.end());
        } catch (std::runtime_error&) {
            thrown = true;
        }
        req(thrown, "unsorted range must be rejected", i, j);
    }
    if (pos.size()) {
        sd_vector_builder bd(b.size(), pos.size());
        size_t k = s.u(pos.size() - 1);
        for (size_t i = 0; i < k; ++i) bd.set(pos[i]);
        bool thrown = false;
        try {
            sd_vector<> x(bd);
        } catch (std::runtime_error&) {
            thrown = true;
        }
        req(thrown, "builder that is not full must be rejected", k);
        thrown = false;
        try {
            sd_vector<rrr_vector<63>> x(bd);
        } catch (std::runtime_error&) {
            thrown = true;
        }
        req(thrown, "builder that is not full must be rejected (rrr)", k);
    }
    bool thrown = false;
    try {
        sd_vector_builder bd(b.size(), b.size() + 1 + s.u(5));
    } catch (std::runtime_error&) {
        thrown = true;
    }
    req(thrown, "capacity above size must be rejected");
}
// positions far apart: vectors much longer than their number of ones
TARGET("sd_sparse", 1500)
{
    auto v = gen::ints(s, 300, s.in(8, 40));
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    c.nt(v.size() > 1);
    c.describe([&] { return "sparse positions " + vec(v); });
    sd_vector<> x(v.begin(), v.end());
    uint64_t n = v.empty() ? 0 : v.back() + 1;
    eq(x.size(), n, "size");
    Rng r(s.seed());
    auto has = [&](uint64_t p) {
        return std::binary_search(v.begin(), v.end(), p);
    };
    for (auto p : v) {
        eq(x[p], 1, "bit", p);
        if (p + 1 < n) eq(x[p + 1], has(p + 1), "bit after", p);
        if (p) eq(x[p - 1], has(p - 1), "bit before", p);
    }
    for (int i = 0; i < 60 and n; ++i) {
        uint64_t p = r.below(n);
        eq(x[p], has(p), "random bit", p);
        uint64_t q = v[r.below(v.size())];
        p = q - std::min<uint64_t>(q, r.below(64));
        unsigned len = 1 + r.below(std::min<uint64_t>(64, n - p));
        uint64_t want = 0;
        for (unsigned j = 0; j < len; ++j) if (has(p + j)) want |= 1ULL << j;
        eq(x.get_int(p, len), want, "get_int", p, len);
    }
}
#endif
#if PART==4
TARGET("plain", 600)
{
    auto in = bvgen::make(s, 3000);
    c.nt(in.n() > 0);
    c.describe([&] { return gen::bitstr(in.b); });
    same(in.bv, in, s, "size");
    bit_vector_il<512> il(in.bv);
    same(il, in, s, "size");
}
#endif
