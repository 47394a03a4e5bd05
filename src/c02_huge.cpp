// C02: vectors of more than 2^32 bits (and of up to 2^32 + some bits).
#include "gen.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/util.hpp>
using namespace sdsl;
using namespace pbt;
using std::vector;

namespace
{
struct Sparse { // default value and the elements that are different
    uint64_t n, base;
    std::map<uint64_t, uint64_t> el;
    uint64_t at(uint64_t i) const
    {
        auto it = el.find(i);
        return it == el.end() ? base : it->second;
    }
};
template<uint8_t W> void huge(Src& s, Ctx& c, uint8_t w)
{
    typedef int_vector<W> V;
    uint64_t mask = w == 64 ? ~0ULL : (1ULL << w) - 1;
    uint64_t first = (1ULL << 32) / w; // first element at or behind bit 2^32
    Sparse m;
    m.n = first + s.u(4000);
    m.base = s.b() ? 0 : s.seed() & mask;
    std::string log;
    c.describe([&] { return "width " + str((uint64_t)w) + ", " + str(m.n) + " elements of " + str(m.base); });
    c.nt(true);
    V v(m.n, m.base, w);
    auto place = [&]() {
        uint64_t p;
        switch (s.u(3)) {
            case 0: p = s.u(200); break;
            case 1: p = m.n - 1 - s.u(200); break;
            case 2: p = first - 100 + s.u(200); break;
            default: p = s.u(m.n - 1);
        }
        return p % m.n;
    };
    auto check = [&](const V& x, const char* what) {
        eq((uint64_t)x.size(), m.n, what);
        eq((uint64_t)x.bit_size(), m.n * w, what);
        for (auto& e : m.el) {
            eq((uint64_t)x[e.first], e.second, what, e.first, m.n);
            if (e.first + 1 < m.n) eq((uint64_t)x[e.first + 1], m.at(e.first + 1), what, e.first + 1, m.n);
            if (e.first) eq((uint64_t)x[e.first - 1], m.at(e.first - 1), what, e.first - 1, m.n);
        }
        for (int i = 0; i < 100; ++i) {
            uint64_t p = place();
            eq((uint64_t)x[p], m.at(p), what, p, m.n);
            eq((uint64_t) * (x.begin() + p), m.at(p), "iterator", p, m.n);
            eq((uint64_t)((x.begin() + p) - x.begin()), p, "distance", p, m.n);
            eq((uint64_t) * (x.end() - (m.n - p)), m.at(p), "iterator from the end", p, m.n);
            eq((uint64_t)x.get_int(p * w, w) , (uint64_t)(typename V::value_type)m.at(p), "get_int", p, m.n);
        }
    };
    auto write = [&](int k) {
        while (k--) {
            uint64_t p = place(), x = s.seed() & mask;
            switch (s.u(2)) {
                case 0: v[p] = x; break;
                case 1: *(v.begin() + p) = x; break;
                default: v.set_int(p * w, x, w);
            }
            m.el[p] = x;
        }
    };
    write(60);
    check(v, "element");
    { // grow and shrink around the limit
        uint64_t old = m.n, to = s.b() ? first - s.u(300) : old + s.u(3000);
        v.resize(to);
        m.n = to;
        m.el.erase(m.el.lower_bound(to), m.el.end());
        for (uint64_t i = old; i < to; ++i) { // new elements are unspecified
            v[i] = m.base;
        }
        check(v, "element after resize");
    }
    if (s.b()) {
        V u(v);
        check(u, "element of a copy");
        req(u == v, "a copy is equal");
        uint64_t p = place();
        u[p] = m.at(p) ^ 1;
        req(u != v, "a changed copy is different", p);
        req((u < v) == (u[p] < v[p]), "order of vectors", p);
    } else {
        V u(std::move(v));
        check(u, "element after move");
        v.swap(u);
        write(10);
        check(v, "element after swap");
    }
    if (W == 0 and s.b()) {
        util::bit_compress(v);
        uint64_t mx = m.base;
        for (auto& e : m.el) mx = std::max(mx, e.second);
        w = bits::hi(mx) + 1;
        check(v, "element after bit_compress");
    }
}
}
TARGET("huge_w0", 3) { static const uint8_t ws[] = {33, 17, 63, 24}; huge<0>(s, c, ws[s.u(3)]); }
TARGET("huge_w64", 2) { huge<64>(s, c, 64); }
TARGET("huge_w13", 2) { huge<13>(s, c, 13); }
TARGET("huge_w8", 1) { huge<8>(s, c, 8); }
// bits
TARGET("huge_bits", 2)
{
    uint64_t n = (1ULL << 32) + 1 + s.u(100000);
    bool base = s.b();
    bit_vector b(n, base);
    std::set<uint64_t> f;
    for (int i = 0; i < 40; ++i) {
        uint64_t p = s.b() ? n - 1 - s.u(100000) : s.b() ? s.u(1000) : (1ULL << 32) - 50 + s.u(100);
        p %= n;
        b[p] = !base;
        f.insert(p);
    }
    c.nt(true);
    c.describe([&] { return str(n) + " bits of " + str((uint64_t)base) + " but " + str((uint64_t)f.size()); });
    vector<uint64_t> ps(f.begin(), f.end());
    auto val = [&](uint64_t i) { return (bool)(f.count(i) ? !base : base); };
    eq(util::cnt_one_bits(b), base ? n - f.size() : f.size(), "cnt_one_bits");
    uint64_t oz = 0, zo = 0;
    std::set<uint64_t> cand;
    for (auto p : ps) cand.insert(p), cand.insert(p + 1);
    for (auto p : cand) if (p and p < n) {
            oz += val(p - 1) and !val(p);
            zo += !val(p - 1) and val(p);
        }
    eq(util::cnt_onezero_bits(b), oz, "cnt_onezero_bits");
    eq(util::cnt_zeroone_bits(b), zo, "cnt_zeroone_bits");
    if (!base) {
        for (size_t i = 0; i < ps.size(); ++i) {
            eq(util::next_bit(b, i ? ps[i - 1] + 1 : 0), ps[i], "next_bit", ps[i]);
            eq(util::prev_bit(b, i + 1 < ps.size() ? ps[i + 1] - 1 : n - 1), ps[i], "prev_bit", ps[i]);
        }
    }
    b.flip();
    for (auto p : ps) eq((bool)b[p], base, "flipped", p);
    eq((bool)b[n - 1], !val(n - 1), "flipped", n - 1);
    eq(util::cnt_one_bits(b), base ? f.size() : n - f.size(), "cnt_one_bits of the complement");
}
