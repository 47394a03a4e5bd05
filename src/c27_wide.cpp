// C27: 128- and 256-bit unsigned integers obey arithmetic modulo 2^128 and 2^256.
// Built twice: with the compiler's 128-bit integers (MODE_TI) and with the library's own class.
#include "pbt.hpp"
#include "gen.hpp"
#include <sdsl/bit_vectors.hpp>
#include <sdsl/uint128_t.hpp>
#include <sdsl/uint256_t.hpp>
#include <sdsl/rrr_helper.hpp>
#include <boost/multiprecision/cpp_int.hpp>
#include <sstream>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;
namespace mp = boost::multiprecision;
typedef mp::number<mp::cpp_int_backend<256, 256, mp::unsigned_magnitude, mp::unchecked, void>> Big;

static const Big M64 = (Big(1) << 64) - 1, M128 = (Big(1) << 128) - 1;
static Big trunc(const Big& x, int w)
{
    return w == 256 ? x : w == 128 ? Big(x & M128) : Big(x & M64);
}
static uint64_t limb(const Big& x, int i)
{
    return (uint64_t)((x >> (64 * i)) & M64);
}
static string hex(const Big& x, int digits)
{
    string t;
    for (int i = digits; i-- > 0;) t += "0123456789abcdef"[(unsigned)((x >> (4 * i)) & 15)];
    return t;
}
// Operands with carries, borrows and runs in interesting places.
static Big operand(Src& s, int w)
{
    Big x = 0;
    switch (s.u(6)) {
        case 0: for (int i = 0; i < w / 64; ++i) x |= Big(s.seed()) << (64 * i); break;
        case 1: x = Big(1) << s.u(w - 1); break;
        case 2: x = (Big(1) << s.u(w - 1)) - 1; break;
        case 3: for (int i = 0; i < w / 64; ++i) {
                static const uint64_t e[] = {0, ~0ULL, 1, 1ULL << 63, ~1ULL, (1ULL << 63) - 1};
                x |= Big(e[s.u(5)]) << (64 * i);
            }
            break;
        case 4: x = s.u(300); break;
        case 5: { // a run of ones
            int a = s.u(w - 1), l = 1 + s.u(w - a - 1);
            x = ((l >= 256 ? Big(0) : Big(1) << l) - 1) << a;
            break;
        }
        default: x = Big(0) - Big(1 + s.u(300));
    }
    return trunc(x, w);
}
static unsigned popcount(Big x)
{
    unsigned c = 0;
    for (int i = 0; i < 4; ++i) c += __builtin_popcountll(limb(x, i));
    return c;
}
static unsigned high(const Big& x)
{
    unsigned h = 0;
    for (unsigned i = 0; i < 256; ++i) if ((x >> i) & 1) h = i;
    return h;
}
static unsigned nth(const Big& x, unsigned i) // position of the i-th one
{
    for (unsigned p = 0; p < 256; ++p) if ((x >> p) & 1 and !--i) return p;
    return 256;
}
static uint128_t to128(const Big& x)
{
    uint128_t r = limb(x, 1);
    r = r << 64;
    return r | (uint128_t)limb(x, 0);
}
static Big from(uint128_t x)
{
    return (Big((uint64_t)(x >> 64)) << 64) | Big((uint64_t)x);
}
static uint256_t to256(const Big& x)
{
    return uint256_t(limb(x, 0), limb(x, 1), to128(x >> 128));
}
static Big from(uint256_t x)
{
    Big r = 0;
    uint256_t y(x);
    for (int i = 0; i < 4; ++i) {
        r |= Big((uint64_t)y) << (64 * i);
        y = y >> 64;
    }
    return r;
}
struct Check {
    Big a, b;
    int w;
    unsigned sh;
    void is(const char* op, const Big& got, const Big& want) const
    {
        if (got != want) fail(string(op) + " of " + hex(a, w / 4) + " and " + hex(b, w / 4) + " (shift " + str((uint64_t)sh) + "): got " + hex(got, w / 4) + " want " + hex(want, w / 4));
    }
    template<class T> void common(T a0, T b0, T(*conv)(const Big&)) const
    {
        auto t = [&](const Big& x) {
            return trunc(x, w);
        };
        T x(a0), y(b0), z(a0);
        is("conversion", from(x), a);
        is("+", from(x + y), t(a + b));
        z += y;
        is("+=", from(z), t(a + b));
        z -= x;
        is("+= then -=", from(z), b);
        is("-", from(x - y), t(a - b));
        z = x;
        z -= y;
        is("-=", from(z), t(a - b));
        is("|", from(x | y), a | b);
        z = x;
        z |= y;
        is("|=", from(z), a | b);
        is("&", from(x & y), a & b);
        is("<<", from(x << (int)sh), t(a << sh));
        is(">>", from(x >> (int)sh), a >> sh);
        is("==", Big(x == y), Big(a == b));
        is("!=", Big(x != y), Big(a != b));
        is("<", Big(x < y), Big(a < b));
        is("<=", Big(x <= y), Big(a <= b));
        is(">", Big(x > y), Big(a > b));
        is(">=", Big(x >= y), Big(a >= b));
        T c(x), d(std::move(c));
        is("== of copies", Big(d == x), 1);
        is("< of copies", Big(d < x), 0);
        is("<= of copies", Big(d <= x), 1);
        is(">= of copies", Big(d >= x), 1);
        c = y;
        d = std::move(c);
        is("assignment", from(d), b);
        z = (T)limb(b, 0);
        is("from 64 bits", from(z), Big(limb(b, 0)));
        is("to 64 bits", Big((uint64_t)x), Big(limb(a, 0)));
        z = x;
        z += z;
        is("doubling", from(z), t(a + a));
        z = x;
        z -= z;
        is("subtracting from itself", from(z), 0);
        z = x;
        z |= z;
        is("| with itself", from(z), a);
        std::ostringstream o;
        o << x;
        if (o.str() != hex(a, w / 4)) fail("output: got " + o.str() + " want " + hex(a, w / 4));
    }
};

template<class Tr, class T> void bit_io(Src& s, const Check& c, T x, int w)
{
    c.is("hi", Big(Tr::hi(x)), Big(high(c.a)));
    c.is("popcount", Big(Tr::popcount(x)), Big(popcount(c.a)));
    size_t n = 600, pos = s.u(130);
    unsigned len = 1 + s.u(w - 1);
    bool fill = s.b();
    bit_vector v(n, fill);
    Big cut = len == 256 ? c.a : Big(c.a & ((Big(1) << len) - 1));
    Tr::set_int(v, pos, x, len);
    for (size_t i = 0; i < n; ++i) {
        bool want = i < pos or i >= pos + len ? fill : (bool)((cut >> (i - pos)) & 1);
        if (v[i] != want) fail("set_int of " + hex(c.a, w / 4) + " at " + str(pos) + ", length " + str((uint64_t)len) + ": bit " + str(i));
    }
    c.is("get_int", from((T)Tr::get_int(v, pos, len)), cut);
}
static Check operands(Src& s, Ctx& c, int w)
{
    Check k;
    k.w = w;
    k.a = operand(s, w);
    k.b = operand(s, w);
    if (s.chance(1, 8)) k.b = k.a;
    if (s.chance(1, 8)) k.b = trunc(k.a + 1, w);
    if (s.chance(1, 8)) k.b = trunc(Big(0) - k.a, w);
    k.sh = s.b() ? s.u(w - 1) : std::min<unsigned>(w - 1, 64 * s.u(w / 64 - 1) + s.u(2));
    c.nt(k.a != 0 and k.b != 0);
    c.describe([k, w]() {
        return hex(k.a, w / 4) + " " + hex(k.b, w / 4) + " shift " + str((uint64_t)k.sh);
    });
    return k;
}
TARGET("uint128", 7000)
{
    Check k = operands(s, c, 128);
    uint128_t x = to128(k.a), y = to128(k.b);
    k.common<uint128_t>(x, y, to128);
    bit_io<binomial_coefficients_trait<7>>(s, k, x, 128);
    k.is("~", from((uint128_t)~x), M128 ^ k.a);
    uint64_t b = limb(k.b, 0);
    k.is("+ with 64 bits", from((uint128_t)(x + b)), trunc(k.a + b, 128));
    uint128_t z = x;
    z += b;
    k.is("+= with 64 bits", from(z), trunc(k.a + b, 128));
    k.is("| with 64 bits", from((uint128_t)(x | b)), k.a | b);
    k.is("== with 64 bits", Big(x == b), Big(k.a == b));
    k.is("> with 64 bits", Big(x > b), Big(k.a > b));
    z = b;
    k.is("= with 64 bits", from(z), Big(b));
#ifndef MODE_TI
    k.is("popcount()", Big(x.popcount()), Big(popcount(k.a)));
    k.is("hi()", Big(x.hi()), Big(high(k.a)));
    k.is("shift by 128", from(x << 128), 0);
    k.is("shift right by 128", from(x >> 128), 0);
    for (unsigned i = 1, n = popcount(k.a); i <= n; ++i) k.is("select", Big(x.select(i)), Big(nth(k.a, i)));
    k.is("two words", from(uint128_t(limb(k.a, 0), limb(k.a, 1))), k.a);
#else
    k.is("*", from((uint128_t)(x * y)), trunc(k.a * k.b, 128));
    if (k.b != 0) {
        k.is("/", from((uint128_t)(x / y)), k.a / k.b);
        k.is("%", from((uint128_t)(x % y)), k.a % k.b);
    }
#endif
}
TARGET("uint256", 7000)
{
    Check k = operands(s, c, 256);
    uint256_t x = to256(k.a), y = to256(k.b);
    k.common<uint256_t>(x, y, to256);
    bit_io<binomial_coefficients_trait<8>>(s, k, x, 256);
    k.is("popcount()", Big(x.popcount()), Big(popcount(k.a)));
    k.is("hi()", Big(x.hi()), Big(high(k.a)));
    for (unsigned i = 1, n = popcount(k.a); i <= n; ++i) k.is("select", Big(x.select(i)), Big(nth(k.a, i)));
    uint64_t b = limb(k.b, 0);
    k.is("> with 64 bits", Big(x > b), Big(k.a > b));
    uint256_t z(y);
    z = b;
    k.is("= with 64 bits", from(z), Big(b));
    k.is("default", from(uint256_t()), 0);
    z = x << (int)k.sh; // shifting there and back clears the bits that fell out
    k.is("<< then >>", from(z >> (int)k.sh), Big(k.a << k.sh) >> k.sh);
}
// A long chain of operations on one variable.
TARGET("chain256", 1500)
{
    Big m = operand(s, 256);
    uint256_t x = to256(m);
    size_t n = s.len(60);
    c.nt(n > 5);
    Log log{c};
    log += hex(m, 64);
    for (size_t i = 0; i < n; ++i) {
        Big b = operand(s, 256);
        uint256_t y = to256(b);
        int sh = s.u(255);
        unsigned op = s.u(7);
        log += " " + str((uint64_t)op) + ":" + (op < 5 ? hex(b, 64) : str((uint64_t)sh));
        switch (op) {
            case 0: x += y; m += b; break;
            case 1: x -= y; m -= b; break;
            case 2: x |= y; m |= b; break;
            case 3: x = x & y; m &= b; break;
            case 4: x = y - x; m = b - m; break;
            case 5: x = x << sh; m <<= sh; break;
            case 6: x = x >> sh; m >>= sh; break;
            default: x = x + x; m += Big(m);
        }
        if (from(x) != m) fail("after step " + str(i) + ": got " + hex(from(x), 64) + " want " + hex(m, 64));
    }
}

// Blocks of compressed bit vectors: the enumerative code built on these integers.
template<class T> T make(const Big& x);
template<> uint64_t make<uint64_t>(const Big& x)
{
    return limb(x, 0);
}
template<> uint128_t make<uint128_t>(const Big& x)
{
    return to128(x);
}
template<> uint256_t make<uint256_t>(const Big& x)
{
    return to256(x);
}
static Big from(uint64_t x)
{
    return Big(x);
}
static mp::cpp_int binom(unsigned n, unsigned k)
{
    static std::map<std::pair<unsigned, unsigned>, mp::cpp_int> memo;
    if (k > n) return 0;
    auto key = std::make_pair(n, k);
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    mp::cpp_int r = 1;
    for (unsigned i = 1; i <= k; ++i) r = r * (n - k + i) / i;
    return memo[key] = r;
}
template<uint16_t N> void code(Src& s, Ctx& c)
{
    typedef rrr_helper<N> H;
    typedef typename H::number_type T;
    Big b = operand(s, N > 128 ? 256 : N > 64 ? 128 : 64);
    if (s.b()) { // few or many ones
        Big z = 0;
        unsigned k = s.u(12);
        Rng r(s.seed());
        while (k--) z |= Big(1) << r.below(N);
        b = s.b() ? z : ~z;
    }
    Big mask = N == 256 ? Big(0) - 1 : (Big(1) << N) - 1;
    b &= mask;
    unsigned k = popcount(b);
    c.nt(k > 0 and k < N);
    c.describe([&]() {
        return "block of " + str((uint64_t)N) + " bits " + hex(b, 64);
    });
    T nr = H::bin_to_nr(make<T>(b));
    Big nrb = from(nr);
    if (mp::cpp_int(nrb) >= binom(N, k)) fail("number of the block is not below the number of blocks of its class");
    unsigned space = H::space_for_bt(k);
    if (mp::cpp_int(nrb) >= (mp::cpp_int(1) << space) or (space and (mp::cpp_int(1) << (space - 1)) > binom(N, k))) fail("space of class " + str((uint64_t)k) + ": " + str((uint64_t)space) + " bits");
    size_t pos = s.u(100);
    bit_vector v(600, s.b());
    if (space) {
        H::set_bt(v, pos, nr, space);
        if (from((T)H::decode_btnr(v, pos, space)) != nrb) fail("stored number");
    }
    Rng r(s.seed());
    unsigned ones = 0;
    for (unsigned i = 0; i <= N; ++i) {
        if (H::decode_popcount(k, make<T>(nrb), i) != ones) fail("decode_popcount of the first " + str((uint64_t)i) + " bits: got " + str((uint64_t)H::decode_popcount(k, make<T>(nrb), i)) + " want " + str((uint64_t)ones));
        if (i == N) break;
        bool bit = (bool)((b >> i) & 1);
        if (H::decode_bit(k, make<T>(nrb), i) != bit) fail("decode_bit " + str((uint64_t)i));
        if (bit) {
            ++ones;
            T z = make<T>(nrb);
            unsigned p = H::decode_select(k, z, ones);
            if (p != i) fail("decode_select " + str((uint64_t)ones) + ": got " + str((uint64_t)p) + " want " + str((uint64_t)i));
        }
        unsigned len = 1 + r.below(std::min<unsigned>(64, N - i));
        uint64_t want = limb((b >> i) & (len == 64 ? M64 : (Big(1) << len) - 1), 0);
        if (H::decode_int(k, make<T>(nrb), i, len) != want) fail("decode_int at " + str((uint64_t)i) + ", length " + str((uint64_t)len));
    }
}
#define CODE(n) TARGET("block" #n, 150) { code<n>(s, c); }
CODE(15)
CODE(31)
CODE(63)
CODE(64)
CODE(65)
CODE(127)
CODE(128)
CODE(129)
CODE(192)
CODE(255)
CODE(256)
