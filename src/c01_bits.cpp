// C01: word-level primitives against their definitions.
#include "gen.hpp"
#include <sdsl/bits.hpp>
using namespace sdsl;
using namespace pbt;
using std::string;

static bool bit(uint64_t x, unsigned i)
{
    return (x >> i) & 1;
}

TARGET("word", 1500000)
{
    uint64_t x = gen::word(s);
    c.nt(x != 0 and x != ~0ULL);
    c.describe([&] { return "x=" + hex(x); });
    unsigned cnt = 0, hi = 0, lo = 0;
    bool any = false;
    for (unsigned i = 0; i < 64; ++i) if (bit(x, i)) {
            ++cnt;
            hi = i;
            if (!any) lo = i;
            any = true;
        }
    eq(bits::cnt(x), cnt, "cnt", x);
    eq(bits::hi(x), hi, "hi", x);
    eq(bits::lo(x), lo, "lo", x);
    unsigned c32 = 0;
    for (unsigned i = 0; i < 32; ++i) c32 += bit(x, i);
    eq(bits::cnt32((uint32_t)x), c32, "cnt32", x);
    uint64_t rev = 0;
    for (unsigned i = 0; i < 64; ++i) if (bit(x, i)) rev |= 1ULL << (63 - i);
    eq(bits::rev(x), rev, "rev", x);
    for (unsigned i = 0, k = 0; i < 64; ++i) if (bit(x, i)) {
            ++k;
            eq(bits::sel(x, k), i, "sel", x, k);
            eq(bits::_sel(x, k), i, "_sel", x, k);
        }
    for (unsigned cy = 0; cy < 2; ++cy) {
        uint64_t m10 = 0, m01 = 0;
        for (unsigned i = 0; i < 64; ++i) {
            bool p = i ? bit(x, i - 1) : cy;
            if (p and !bit(x, i)) m10 |= 1ULL << i;
            if (!p and bit(x, i)) m01 |= 1ULL << i;
        }
        eq(bits::map10(x, cy), m10, "map10", x, cy);
        eq(bits::map01(x, cy), m01, "map01", x, cy);
        uint64_t cc = cy;
        eq(bits::cnt10(x, cc), bits::cnt(m10), "cnt10", x, cy);
        eq(cc, x >> 63, "carry of cnt10", x, cy);
        cc = cy;
        eq(bits::cnt01(x, cc), bits::cnt(m01), "cnt01", x, cy);
        eq(cc, x >> 63, "carry of cnt01", x, cy);
        // greedy distinct 11 pairs, from the low end
        unsigned n11 = 0, p11[64], last = 0;
        bool pend = cy;
        for (unsigned i = 0; i < 64; ++i) {
            if (!bit(x, i)) pend = false;
            else if (pend) {
                p11[n11++] = i;
                last = i;
                pend = false;
            } else pend = true;
        }
        cc = cy;
        eq(bits::cnt11(x, cc), n11, "cnt11 with carry", x, cy);
        eq(cc, pend, "carry of cnt11", x, cy);
        for (unsigned k = 0; k < n11; ++k) eq(bits::sel11(x, k + 1, cy), p11[k], "sel11", x, k + 1, cy);
        if (cy == 0) {
            eq(bits::cnt11(x), n11, "cnt11", x);
            eq(bits::hi11(x), last, "hi11", x);
        }
    }
    eq(bits::map10(x), bits::map10(x, 0), "map10 default", x);
    eq(bits::map01(x), bits::map01(x, 1), "map01 default", x);
}

TARGET("tables", 1)
{
    c.nt();
    for (unsigned i = 0; i <= 64; ++i) {
        eq(bits::lo_set[i], i == 64 ? ~0ULL : (1ULL << i) - 1, "lo_set", i);
        eq(bits::lo_unset[i], ~(i == 64 ? ~0ULL : (1ULL << i) - 1), "lo_unset", i);
    }
    eq(bits::all_set, ~0ULL, "all_set");
    // Fibonacci numbers 1,2,3,5,... that fit into 64 bits
    eq(bits::lt_fib[0], 1, "lt_fib", 0);
    eq(bits::lt_fib[1], 2, "lt_fib", 1);
    for (unsigned i = 2; i < 92; ++i) eq(bits::lt_fib[i], bits::lt_fib[i - 1] + bits::lt_fib[i - 2], "lt_fib", i);
}

namespace
{
struct Arr { // word array with a bit model; guards on both sides
    std::vector<uint64_t> w;
    std::vector<bool> m;
    explicit Arr(size_t n, uint64_t seed) : w(n), m(n * 64)
    {
        Rng r(seed);
        for (auto& x : w) x = gen::word(r);
        for (size_t i = 0; i < m.size(); ++i) m[i] = bit(w[i / 64], i % 64);
    }
    void same(const char* what, uint64_t a = 0, uint64_t b = 0)
    {
        for (size_t i = 0; i < m.size(); ++i) if (bit(w[i / 64], i % 64) != m[i]) eq_fail(!m[i], m[i], what, i, a, b);
    }
    uint64_t get(size_t p, unsigned len)
    {
        uint64_t x = 0;
        for (unsigned i = 0; i < len; ++i) if (m[p + i]) x |= 1ULL << i;
        return x;
    }
    void set(size_t p, uint64_t x, unsigned len)
    {
        for (unsigned i = 0; i < len; ++i) m[p + i] = bit(x, i);
    }
};
}

TARGET("cursor", 400000)
{
    // a history of reads/writes/moves over an exactly sized heap array (ASan guards the ends)
    size_t n = s.in(1, 6);
    Arr a(n, s.seed());
    string log;
    size_t ops = s.in(1, 24), N = n * 64;
    size_t cur = 0;  // cursor position in bits, for the *_and_move forms
    unsigned crossed = 0;
    for (size_t k = 0; k < ops; ++k) {
        size_t op = s.u(9);
        size_t p = s.pos(N);
        unsigned len = std::min<size_t>(s.u(64), N - p);
        uint64_t* wp = a.w.data() + p / 64;
        const uint64_t* cp = wp;
        uint8_t off = p % 64;
        if (c.want_sample) log += " " + str(op) + "@" + str(p) + "+" + str(len);
        crossed += off + len > 64;
        switch (op) {
            case 0: {
                uint64_t x = gen::word(s);
                bits::write_int(wp, x, off, len);
                a.set(p, x, len);
                a.same("write_int", p, len);
                break;
            }
            case 1: {
                uint64_t x = gen::word(s);
                uint8_t o = off;
                uint64_t* w = wp;
                bits::write_int_and_move(w, x, o, len);
                a.set(p, x, len);
                a.same("write_int_and_move", p, len);
                eq((w - a.w.data()) * 64 + o, p + len, "write pointer", p, len);
                req(o < 64, "write offset", o);
                break;
            }
            case 2: eq(bits::read_int(cp, off, len), a.get(p, len), "read_int", p, len); break;
            case 3: {
                uint8_t o = off;
                const uint64_t* w = cp;
                eq(bits::read_int_and_move(w, o, len), a.get(p, len), "read_int_and_move", p, len);
                eq((w - a.w.data()) * 64 + o, p + len, "read pointer", p, len);
                req(o < 64, "read offset", o);
                break;
            }
            case 4:
            case 5: {
                size_t q = p;
                while (q < N and !a.m[q]) ++q;
                if (q == N) break;
                eq(bits::read_unary(cp, off), q - p, "read_unary", p);
                uint8_t o = off;
                const uint64_t* w = cp;
                eq(bits::read_unary_and_move(w, o), q - p, "read_unary_and_move", p);
                eq((w - a.w.data()) * 64 + o, q + 1, "unary pointer", p);
                eq(bits::next(a.w.data(), p), q, "next", p);
                break;
            }
            case 6: {
                size_t q = p + 1;
                while (q and !a.m[q - 1]) --q;
                if (!q) break;
                eq(bits::prev(a.w.data(), p), q - 1, "prev", p);
                break;
            }
            case 7: {
                uint8_t o = off;
                const uint64_t* w = cp;
                bits::move_right(w, o, len);
                eq((w - a.w.data()) * 64 + o, p + len, "move_right", p, len);
                req(o < 64, "move offset", o);
                bits::move_left(w, o, len);
                eq((w - a.w.data()) * 64 + o, p, "move_left", p, len);
                req(o < 64, "move offset", o);
                break;
            }
            case 8: { // chain: sequential write then read back through moving pointers
                uint64_t* w = a.w.data() + cur / 64;
                uint8_t o = cur % 64;
                size_t st = cur;
                std::vector<std::pair<uint64_t, unsigned>> items;
                for (size_t j = s.u(6); j; --j) {
                    unsigned l = std::min<size_t>(s.u(64), N - cur);
                    if (cur == N) break;
                    uint64_t x = gen::word(s);
                    bits::write_int_and_move(w, x, o, l);
                    a.set(cur, x, l);
                    items.emplace_back(x & bits::lo_set[l], l);
                    cur += l;
                }
                a.same("sequence of write_int_and_move", st, cur);
                const uint64_t* r = a.w.data() + st / 64;
                uint8_t ro = st % 64;
                for (auto& it : items) eq(bits::read_int_and_move(r, ro, it.second), it.first, "sequence of read_int_and_move", st, it.second);
                if (cur >= N) cur = 0;
                break;
            }
            default: { // zero or fill a range so that unary reads and next/prev cross words
                size_t e = std::min(N, p + s.u(200));
                bool v = s.chance(1, 4);
                for (size_t i = p; i < e; ++i) {
                    a.m[i] = v;
                    bits::write_int(a.w.data() + i / 64, v, i % 64, 1);
                }
                a.same("single bit writes", p, e);
            }
        }
    }
    c.nt(crossed > 0);
    if (crossed) c.label("crosses word");
    c.describe([&] { return "words=" + str(n) + " ops(kind@pos+len):" + log; });
}
