// Small property-based testing engine: choice tapes, targets, labels.
// A case is a pure function of its tape. See pbt_main.cpp for the driver.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <string>
#include <vector>

namespace pbt
{

struct Fail {
    std::string msg;
};

inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}

// Deterministic bulk expander; its seed is itself drawn from the tape.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}
    uint64_t next()
    {
        return splitmix(s);
    }
    uint64_t below(uint64_t n)   // [0,n)
    {
        return n ? next() % n : 0;
    }
    uint64_t upto(uint64_t max)   // [0,max]
    {
        return max == ~0ULL ? next() : next() % (max + 1);
    }
    bool chance(uint64_t num, uint64_t den)
    {
        return next() % den < num;
    }
};

// Source of choices.
class Src
{
        uint8_t* m_tape;
        size_t m_len, m_cap, m_pos = 0;
        bool m_grow;
        uint64_t m_rng = 0;
    public:
        size_t* len_out = nullptr; // mirrored length (shared memory)
        Src(uint8_t* tape, size_t len, size_t cap, bool grow, uint64_t seed)
            : m_tape(tape), m_len(len), m_cap(cap), m_grow(grow), m_rng(seed) {}
        uint8_t byte()
        {
            if (m_pos < m_len) return m_tape[m_pos++];
            if (!m_grow or m_len >= m_cap) {
                ++m_pos;
                return 0;
            }
            uint8_t b = (uint8_t)(splitmix(m_rng) >> 24);
            m_tape[m_len++] = b;
            if (len_out) *len_out = m_len;
            ++m_pos;
            return b;
        }
        size_t consumed() const
        {
            return m_pos;
        }
        //! uniform (up to modulo bias) in [0,max]
        uint64_t u(uint64_t max)
        {
            if (max == 0) return 0;
            int k = max <= 0xFF ? 1 : max <= 0xFFFF ? 2 : max <= 0xFFFFFFFFULL ? 4 : 8;
            uint64_t x = 0;
            for (int i = 0; i < k; ++i) x |= (uint64_t)byte() << (8 * i);
            return max == ~0ULL ? x : x % (max + 1);
        }
        uint64_t in(uint64_t lo, uint64_t hi)
        {
            return lo + u(hi - lo);
        }
        bool b()
        {
            return byte() & 1;
        }
        bool chance(unsigned num, unsigned den)   // false on the zero tape
        {
            return u(den - 1) >= den - num;
        }
        //! index into weights, 0 on the zero tape
        size_t pick(std::initializer_list<unsigned> w)
        {
            uint64_t sum = 0;
            for (auto x : w) sum += x;
            uint64_t r = u(sum - 1);
            size_t i = 0;
            for (auto x : w) {
                if (r < x) return i;
                r -= x;
                ++i;
            }
            return 0;
        }
        //! skewed length in [0,max]: small lengths are frequent, large ones occur
        size_t len(size_t max)
        {
            switch (u(7)) {
                case 0: return u(max < 4 ? max : 4);
                case 1:
                case 2: return u(max < 20 ? max : 20);
                case 3:
                case 4: return u(max < 140 ? max : 140);
                case 5: return u(max < 1100 ? max : 1100);
                default: return u(max);
            }
        }
        //! 64 bit value with a log-uniform magnitude, plus corner values; `w` = max number of bits
        uint64_t val(unsigned w = 64)
        {
            uint64_t mask = w >= 64 ? ~0ULL : ((1ULL << w) - 1);
            switch (u(9)) {
                case 0: return 0;
                case 1: return u(3) & mask;
                case 2: return mask - (u(3) & mask);
                case 3: {
                    unsigned k = u(w ? w - 1 : 0);
                    return (1ULL << k) & mask;
                }
                case 4: {
                    unsigned k = u(w ? w - 1 : 0);
                    return ((1ULL << k) - 1) & mask;
                }
                case 5: {
                    unsigned k = u(w ? w - 1 : 0);
                    return (((1ULL << k) | 1)) & mask;
                }
                case 6: return u(~0ULL) & mask;
                default: {
                    unsigned k = u(w ? w - 1 : 0) + 1;
                    return u(~0ULL) & mask & (k >= 64 ? ~0ULL : (1ULL << k) - 1);
                }
            }
        }
        //! a position in [0,n): corners and near multiples of powers of two are frequent
        uint64_t pos(uint64_t n)
        {
            if (n <= 1) return 0;
            switch (u(7)) {
                case 0: return u(n - 1 < 2 ? n - 1 : 2);
                case 1: return n - 1 - u(n - 1 < 2 ? n - 1 : 2);
                case 2:
                case 3: {
                    uint64_t step = 1ULL << in(3, 12);
                    uint64_t p = u(n / step) * step + u(2);
                    p = p ? p - 1 : 0;
                    return p < n ? p : n - 1;
                }
                default: return u(n - 1);
            }
        }
        uint64_t seed()
        {
            return u(~0ULL);
        }
};

struct Ctx {
    bool nontrivial = false;
    bool want_sample = false;
    std::string sample;
    std::vector<std::string> labels;
    bool replaying = false;
    char* mirror = nullptr;
    void nt(bool x = true)
    {
        nontrivial = nontrivial or x;
    }
    void label(const char* l)
    {
        labels.emplace_back(l);
    }
    void label(const std::string& l)
    {
        labels.emplace_back(l);
    }
    template<class F>
    void describe(F f)   // f() -> std::string appended to the description, only evaluated when needed
    {
        if (!want_sample or sample.size() > 3000) return;
        sample += f();
        if (mirror) snprintf(mirror, 3999, "%s", sample.c_str()); // survives a crash of the case
    }
};

// what a history did so far
struct Log {
    Ctx& c;
    Log& operator+=(const std::string& t)
    {
        c.describe([&]() { return t; });
        return *this;
    }
};

typedef std::function<void(Src&, Ctx&)> Fn;
struct Target {
    std::string name;
    Fn fn;
    unsigned weight;  // relative number of cases
};
inline std::vector<Target>& targets()
{
    static std::vector<Target> t;
    return t;
}
struct Reg {
    Reg(std::string name, Fn fn, unsigned weight = 100)
    {
        targets().push_back({std::move(name), std::move(fn), weight});
    }
};
#define PBT_CAT2(a,b) a##b
#define PBT_CAT(a,b) PBT_CAT2(a,b)
#define PBT_TARGET(name, weight, id) \
    static void PBT_CAT(pbt_t_,id)(pbt::Src& s, pbt::Ctx& c); \
    static pbt::Reg PBT_CAT(pbt_r_,id)(name, PBT_CAT(pbt_t_,id), weight); \
    static void PBT_CAT(pbt_t_,id)(pbt::Src& s, pbt::Ctx& c)
#define TARGET(name, weight) PBT_TARGET(name, weight, __COUNTER__)

inline std::string str(uint64_t x)
{
    char b[32];
    snprintf(b, sizeof b, "%llu", (unsigned long long)x);
    return b;
}
inline std::string hex(uint64_t x)
{
    char b[32];
    snprintf(b, sizeof b, "0x%llx", (unsigned long long)x);
    return b;
}
template<class V>
std::string vec(const V& v, size_t max = 40)
{
    std::string r = "[";
    size_t k = 0;
    for (size_t i = 0; i < v.size(); ++i) {
        if (k++) r += ",";
        if (k > max) {
            r += "...(" + str(v.size()) + ")";
            break;
        }
        r += str((uint64_t)v[i]);
    }
    return r + "]";
}
inline std::string quoted(const std::string& t, size_t max = 60)
{
    std::string r = "\"";
    for (size_t i = 0; i < t.size(); ++i) {
        if (i >= max) {
            r += "...(" + str(t.size()) + ")";
            break;
        }
        unsigned char ch = t[i];
        if (ch >= 32 and ch < 127 and ch != '"' and ch != '\\') r += ch;
        else {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", ch);
            r += b;
        }
    }
    return r + "\"";
}

[[noreturn]] void fail(std::string msg);
//! equality of integers; up to three context values
void eq_fail(uint64_t got, uint64_t want, const char* what, uint64_t a, uint64_t b, uint64_t c);
inline void eq(uint64_t got, uint64_t want, const char* what, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0)
{
    if (__builtin_expect(got != want, 0)) eq_fail(got, want, what, a, b, c);
}
inline void req(bool ok, const char* what, uint64_t a = 0, uint64_t b = 0, uint64_t c = 0)
{
    if (__builtin_expect(!ok, 0)) eq_fail(0, 1, what, a, b, c);
}
//! scratch directory of this process, created on first use and removed by the driver
const std::string& scratch();

} // namespace pbt
