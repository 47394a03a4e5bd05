// C02: histories over several int_vectors of one type against a bit-array model.
#include "gen.hpp"
#include <sdsl/int_vector.hpp>
#include <sdsl/util.hpp>
#include <numeric>
using namespace sdsl;
using namespace pbt;
using std::string;
using std::vector;

namespace
{
struct Model {
    vector<bool> m;
    unsigned w = 64;
    size_t size() const
    {
        return m.size() / w;
    }
    uint64_t get(size_t p, unsigned len) const
    {
        uint64_t x = 0;
        for (unsigned i = 0; i < len; ++i) if (m[p + i]) x |= 1ULL << i;
        return x;
    }
    void set(size_t p, uint64_t x, unsigned len)
    {
        for (unsigned i = 0; i < len; ++i) m[p + i] = (x >> i) & 1;
    }
    uint64_t at(size_t i) const
    {
        return get(i * w, w);
    }
    void put(size_t i, uint64_t x)
    {
        set(i * w, x, w);
    }
    vector<uint64_t> elems() const
    {
        vector<uint64_t> r(size());
        for (size_t i = 0; i < r.size(); ++i) r[i] = at(i);
        return r;
    }
};

template<uint8_t W> struct ValT {
    typedef uint64_t type;
};
template<> struct ValT<1> {
    typedef bool type;
};
template<> struct ValT<8> {
    typedef uint8_t type;
};
template<> struct ValT<16> {
    typedef uint16_t type;
};
template<> struct ValT<32> {
    typedef uint32_t type;
};
template<uint8_t W>
struct Hist {
    typedef int_vector<W> IV;
    static const size_t K = 3;
    static const unsigned VB = sizeof(typename IV::value_type) * 8; // longest bit string set_int/get_int can carry
    Src& s;
    Ctx& c;
    IV* v[K];
    Model m[K];
    size_t maxlen;
    Hist(Src& s_, Ctx& c_) : s(s_), c(c_)
    {
        maxlen = s.chance(1, 6) ? 1500 : 150;
        c.describe([&] { return "int_vector<" + str(W) + ">"; });
        for (size_t k = 0; k < K; ++k) {
            v[k] = nullptr;
            make(k);
            c.describe([&] { return " (size " + str(m[k].size()) + " width " + str(m[k].w) + ")"; });
        }
    }
    ~Hist()
    {
        for (auto p : v) delete p;
    }
    uint64_t mask(unsigned w)
    {
        return w >= 64 ? ~0ULL : (1ULL << w) - 1;
    }
    void make(size_t k)
    {
        delete v[k];
        v[k] = nullptr;
        m[k].m.clear();
        unsigned w = W ? W : 1 + s.u(63);
        switch (s.u(3)) {
            case 0: {
                size_t n = s.len(maxlen);
                uint64_t x = W == 1 ? s.u(1) : s.val(64);
                v[k] = new IV(n, x, w);
                m[k].w = w;
                m[k].m.resize(n * w);
                for (size_t i = 0; i < n; ++i) m[k].put(i, x);
                break;
            }
            case 1: {
                uint64_t a = s.val(W ? W : 64), b = s.val(W ? W : 64), d = s.val(W ? W : 64);
                v[k] = new IV({a, b, d});
                w = W ? W : 64;
                m[k].w = w;
                m[k].m.resize(3 * w);
                m[k].put(0, a);
                m[k].put(1, b);
                m[k].put(2, d);
                break;
            }
            case 2: {
                size_t n = s.len(maxlen);
                v[k] = new IV(n);
                m[k].w = W ? W : 64;
                m[k].m.assign(n * m[k].w, false);
                break;
            }
            default: {
                v[k] = new IV();
                m[k].w = W ? W : 64;
                if (W == 0 and s.b()) {
                    v[k]->width(w);
                    m[k].w = w;
                }
            }
        }
    }
    // give defined content to bits [from, end)
    void define(size_t k, size_t from)
    {
        Rng r(s.seed());
        for (size_t p = from; p < m[k].m.size();) {
            unsigned len = std::min<size_t>(1 + r.below(VB), m[k].m.size() - p);
            uint64_t x = gen::word(r);
            v[k]->set_int(p, x, len);
            m[k].set(p, x, len);
            p += len;
        }
    }
    void check(const char* what)
    {
        for (size_t k = 0; k < K; ++k) {
            const IV& cv = *v[k];
            eq(cv.bit_size(), m[k].m.size(), "bit_size", k);
            eq(cv.width(), m[k].w, "width", k);
            eq(cv.size(), m[k].size(), "size", k);
            eq(cv.empty(), m[k].m.empty(), "empty", k);
            eq(cv.capacity(), (m[k].m.size() + 63) / 64 * 64, "capacity", k);
            for (size_t i = 0; i < m[k].size(); ++i)
                if (cv[i] != m[k].at(i)) fail(string(what) + ": element " + str(i) + " of vector " + str(k) + " is " + str(cv[i]) + " want " + str(m[k].at(i)));
            size_t t = m[k].size() * m[k].w, e = m[k].m.size();
            if (t < e) eq(cv.get_int(t, e - t), m[k].get(t, e - t), "trailing bits", k); // fewer than width bits
        }
    }
    static bool lex_less(const vector<uint64_t>& a, const vector<uint64_t>& b)
    {
        return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
    }
    template<class T> void elem_ops(IV& a, Model& ma, size_t i, size_t op, std::false_type)
    {
        uint64_t x = s.val(64), old = ma.at(i);
        switch (op) {
            case 0:
                a[i] = (typename IV::value_type)x;
                ma.put(i, x);
                break;
            case 1:
                ++a[i];
                ma.put(i, old + 1);
                break;
            case 2:
                --a[i];
                ma.put(i, old - 1);
                break;
            case 3:
                eq((uint64_t)(a[i]++), old, "value of postfix ++", i);
                ma.put(i, old + 1);
                break;
            case 4:
                eq((uint64_t)(a[i]--), old, "value of postfix --", i);
                ma.put(i, old - 1);
                break;
            case 5:
                a[i] += (typename IV::value_type)x;
                ma.put(i, old + x);
                break;
            case 6:
                a[i] -= (typename IV::value_type)x;
                ma.put(i, old - x);
                break;
            case 7: { // chained: prefix operators return the element itself
                ++(++a[i]);
                ma.put(i, old + 2);
                break;
            }
            default:
                a[i] = a[i] + (uint64_t)1;
                ma.put(i, old + 1);
        }
    }
    template<class T> void elem_ops(IV& a, Model& ma, size_t i, size_t op, std::true_type)
    {
        bool x = s.b();
        a[i] = x;
        ma.put(i, x);
    }
    void step()
    {
        size_t k = s.u(K - 1);
        IV& a = *v[k];
        Model& ma = m[k];
        size_t n = ma.size(), w = ma.w, B = ma.m.size();
        size_t op = s.u(31);
        c.describe([&] { return " op" + str(op) + ":" + str(k); });
        switch (op) {
            case 0:
            case 1:
            case 2: {
                if (!n) break;
                elem_ops<int>(a, ma, s.pos(n), s.u(8), std::integral_constant<bool, W == 1>());
                break;
            }
            case 3: { // assignment and swap between elements
                if (!n) break;
                size_t i = s.pos(n), j = s.pos(n);
                uint64_t x = ma.at(i), y = ma.at(j);
                switch (s.u(3)) {
                    case 0:
                        a[i] = a[j];
                        ma.put(i, y);
                        break;
                    case 1: {
                        using std::swap;
                        swap(a[i], a[j]);
                        ma.put(i, y);
                        ma.put(j, x);
                        break;
                    }
                    case 2: {
                        req((a[i] == a[j]) == (x == y), "reference ==", i, j);
                        req((a[i] < a[j]) == (x < y), "reference <", i, j);
                        break;
                    }
                    default: {
                        using std::swap;
                        typename ValT<W>::type t = (typename ValT<W>::type)(s.val(W ? W : 64));
                        uint64_t tv = t;
                        bool left = s.b();
                        if (left) swap(t, a[i]);
                        else swap(a[i], t);
                        eq((uint64_t)t, x, "value after swap with an element", i);
                        ma.put(i, tv);
                    }
                }
                break;
            }
            case 4:
            case 5: {
                if (!B) break;
                size_t p = s.pos(B);
                unsigned len = std::min<size_t>(s.u(VB), B - p);
                uint64_t x = gen::word(s);
                a.set_int(p, x, len);
                ma.set(p, x, len);
                c.nt(p / 64 != (p + len) / 64);
                break;
            }
            case 6: {
                if (!B) break;
                for (int j = 0; j < 8; ++j) {
                    size_t p = s.pos(B);
                    unsigned len = std::min<size_t>(s.u(VB), B - p);
                    eq(a.get_int(p, len), ma.get(p, len), "get_int", p, len);
                }
                if (VB == 64 and B >= 64) eq(a.get_int(B - 64), ma.get(B - 64, 64), "get_int default length", B);
                break;
            }
            case 7:
            case 8: {
                size_t nn = s.chance(1, 3) ? n + s.u(3) - std::min<size_t>(n, 1) : s.chance(1, 4) ? (n + 63) / 64 * 64 : s.len(maxlen);
                a.resize(nn);
                ma.m.resize(nn * w);
                define(k, std::min(B, nn * w));
                break;
            }
            case 9: {
                size_t nb = s.chance(1, 3) ? (B + 63) / 64 * 64 : s.len(maxlen * 8);
                a.bit_resize(nb);
                ma.m.resize(nb);
                define(k, std::min(B, nb));
                break;
            }
            case 10: {
                unsigned nw = 1 + s.u(63);
                a.width(nw);
                if (W == 0) ma.w = nw;
                break;
            }
            case 11: {
                if (W) break;
                auto e = ma.elems();
                uint64_t mx = 0;
                for (auto x : e) mx = std::max(mx, x);
                unsigned need = 1;
                while (need < 64 and (mx >> need)) ++need;
                util::bit_compress(a);
                if (need < w) {
                    ma.w = need;
                    ma.m.assign(e.size() * need, false);
                    for (size_t i = 0; i < e.size(); ++i) ma.put(i, e[i]);
                }
                break;
            }
            case 12: {
                if (W) break;
                unsigned nw = 1 + s.u(63);
                auto e = ma.elems();
                util::expand_width(a, nw);
                if (nw > w) {
                    ma.w = nw;
                    if (e.size()) ma.m.assign(e.size() * nw, false);
                    for (size_t i = 0; i < e.size(); ++i) ma.put(i, e[i]);
                }
                break;
            }
            case 13: {
                uint64_t x = W == 1 ? s.u(1) : s.val(s.b() ? w : 64);
                util::set_to_value(a, x);
                for (size_t i = 0; i < n; ++i) ma.put(i, x);
                define(k, n * w);
                break;
            }
            case 14: {
                if (W == 1) break;
                util::set_to_id(a);
                for (size_t i = 0; i < n; ++i) ma.put(i, i);
                break;
            }
            case 15: {
                uint64_t md = s.val(w);
                if (!md) md = 1;
                util::mod(a, md);
                for (size_t i = 0; i < n; ++i) ma.put(i, ma.at(i) % md);
                break;
            }
            case 16: { // value operations
                size_t j = s.u(K - 1);
                switch (s.u(5)) {
                    case 0: { // copy construct
                        IV* x = new IV(a);
                        delete v[j == k ? (k + 1) % K : j];
                        size_t t = j == k ? (k + 1) % K : j;
                        v[t] = x;
                        m[t] = ma;
                        break;
                    }
                    case 1: { // move construct
                        size_t t = j == k ? (k + 1) % K : j;
                        IV* x = new IV(std::move(a));
                        delete v[t];
                        v[t] = x;
                        m[t] = ma;
                        if (s.b()) make(k);
                        else { // a moved-from vector can be assigned to and resized
                            *v[k] = *v[t];
                        }
                        break;
                    }
                    case 2:
                        *v[j] = a;
                        m[j] = Model(ma);
                        break;
                    case 3: {
                        if (j == k) break;
                        *v[j] = std::move(a);
                        m[j] = ma;
                        make(k);
                        break;
                    }
                    case 4:
                        v[j]->swap(a);
                        std::swap(m[j], m[k]);
                        break;
                    default: {
                        using std::swap;
                        swap(*v[j], a);
                        if (j != k) std::swap(m[j], m[k]);
                    }
                }
                break;
            }
            case 17:
            case 18: { // comparisons
                size_t j = s.u(K - 1);
                if (s.chance(1, 3) and j != k) { // nearly equal pair
                    *v[j] = a;
                    m[j] = ma;
                    if (B) {
                        size_t p = s.pos(B);
                        bool nb = !ma.m[p];
                        if (s.b()) {
                            v[j]->set_int(p, nb, 1);
                            m[j].m[p] = nb;
                        }
                    }
                    if (s.chance(1, 3) and n) {
                        v[j]->resize(n - 1);
                        m[j].m.resize((n - 1) * w);
                    }
                }
                const IV& x = a, &y = *v[j];
                auto ex = ma.elems(), ey = m[j].elems();
                bool less = lex_less(ex, ey), greater = lex_less(ey, ex);
                bool same_shape = ma.w == m[j].w;
                bool equal = same_shape and ma.m == m[j].m;
                if (same_shape or !(ma.m.empty() and m[j].m.empty())) {
                    req((x == y) == equal, "==", k, j);
                    req((x != y) == !equal, "!=", k, j);
                }
                req((x < y) == less, "<", k, j);
                req((x > y) == greater, ">", k, j);
                if (same_shape and ma.m.size() % w == 0 and m[j].m.size() % w == 0) {
                    req((x <= y) == !greater, "<=", k, j);
                    req((x >= y) == !less, ">=", k, j);
                }
                break;
            }
            case 19: { // bitwise updates
                size_t j = s.u(K - 1);
                if (j != k) {
                    v[j]->bit_resize(B);
                    size_t ob = m[j].m.size();
                    m[j].m.resize(B);
                    define(j, std::min(ob, B));
                }
                switch (s.u(2)) {
                    case 0:
                        a &= *v[j];
                        for (size_t i = 0; i < B; ++i) ma.m[i] = ma.m[i] and m[j].m[i];
                        break;
                    case 1:
                        a |= *v[j];
                        for (size_t i = 0; i < B; ++i) ma.m[i] = ma.m[i] or m[j].m[i];
                        break;
                    default:
                        a ^= *v[j];
                        for (size_t i = 0; i < B; ++i) ma.m[i] = ma.m[i] != m[j].m[i];
                }
                break;
            }
            case 20: { // counting
                uint64_t ones = 0, oz = 0, zo = 0;
                for (size_t i = 0; i < B; ++i) {
                    ones += ma.m[i];
                    if (i) {
                        oz += ma.m[i - 1] and !ma.m[i];
                        zo += !ma.m[i - 1] and ma.m[i];
                    }
                }
                eq(util::cnt_one_bits(a), ones, "cnt_one_bits");
                eq(util::cnt_onezero_bits(a), oz, "cnt_onezero_bits");
                eq(util::cnt_zeroone_bits(a), zo, "cnt_zeroone_bits");
                break;
            }
            case 21: { // scanning
                if (!B) break;
                for (int j = 0; j < 6; ++j) {
                    size_t p = s.pos(B), q = p;
                    while (q < B and !ma.m[q]) ++q;
                    eq(util::next_bit(a, p), q, "next_bit", p);
                    q = p + 1;
                    while (q and !ma.m[q - 1]) --q;
                    eq(util::prev_bit(a, p), q ? q - 1 : B, "prev_bit", p);
                }
                break;
            }
            case 22: { // iterator navigation
                auto b = a.begin(), e = a.end();
                const IV& ca = a;
                auto cb = ca.begin(), ce = ca.end();
                eq(e - b, n, "end-begin");
                eq(ce - cb, n, "const end-begin");
                if (!n) break;
                auto it = b;
                auto ci = cb;
                Rng r2(s.seed());
                size_t p = 0;
                for (int j = 0; j < 12; ++j) {
                    size_t q = s.u(n);
                    switch (s.u(4)) {
                        case 0:
                            it += (std::ptrdiff_t)q - (std::ptrdiff_t)p;
                            ci += (std::ptrdiff_t)q - (std::ptrdiff_t)p;
                            break;
                        case 1:
                            it -= (std::ptrdiff_t)p - (std::ptrdiff_t)q;
                            ci -= (std::ptrdiff_t)p - (std::ptrdiff_t)q;
                            break;
                        case 2:
                            it = b + q;
                            ci = cb + q;
                            break;
                        case 3:
                            it = e - (n - q);
                            ci = ce - (n - q);
                            break;
                        default:
                            while (p < q) {
                                if (q & 1) {
                                    ++it;
                                    ++ci;
                                } else {
                                    it++;
                                    ci++;
                                }
                                ++p;
                            }
                            while (p > q) {
                                if (q & 1) {
                                    --it;
                                    --ci;
                                } else {
                                    it--;
                                    ci--;
                                }
                                --p;
                            }
                    }
                    p = q;
                    if (s.b()) { // through an iterator that belonged to another vector, of another width
                        IV other(3, 0, W ? W : (uint8_t)(1 + r2.below(64)));
                        const IV& co = other;
                        auto io = other.begin() + 1;
                        auto jo = co.begin() + 1;
                        io = it;
                        jo = ci;
                        req(io == it and jo == ci, "assigned iterator");
                        if (j & 1) {
                            decltype(it) t1(io);
                            decltype(ci) t2(jo);
                            it = t1;
                            ci = t2;
                        } else {
                            it = io;
                            ci = jo;
                        }
                    }
                    eq(it - b, p, "iterator distance");
                    eq(ci - cb, p, "const_iterator distance");
                    req((it == e) == (p == n), "iterator ==", p);
                    req((ci == ce) == (p == n), "const_iterator ==", p);
                    req((it != b) == (p != 0), "iterator !=", p);
                    req((it < e) == (p < n) and (it > b) == (p > 0) and it <= e and it >= b, "iterator order", p);
                    req((ci < ce) == (p < n) and (ci > cb) == (p > 0) and ci <= ce and ci >= cb, "const_iterator order", p);
                    if (p < n) {
                        eq((uint64_t)*it, ma.at(p), "*iterator", p);
                        eq((uint64_t)*ci, ma.at(p), "*const_iterator", p);
                        size_t q2 = s.u(n - 1);
                        eq((uint64_t)it[(std::ptrdiff_t)q2 - (std::ptrdiff_t)p], ma.at(q2), "iterator[]", p, q2);
                        eq((uint64_t)ci[(std::ptrdiff_t)q2 - (std::ptrdiff_t)p], ma.at(q2), "const_iterator[]", p, q2);
                    }
                }
                break;
            }
            case 23: { // standard algorithms through iterators
                if (!n) break;
                size_t i = s.u(n), j = i + s.u(n - i);
                auto e = ma.elems();
                switch (s.u(5)) {
                    case 0:
                        std::sort(a.begin() + i, a.begin() + j);
                        std::sort(e.begin() + i, e.begin() + j);
                        break;
                    case 1:
                        std::reverse(a.begin() + i, a.begin() + j);
                        std::reverse(e.begin() + i, e.begin() + j);
                        break;
                    case 2: {
                        typename IV::value_type x = (typename IV::value_type)s.val(W ? W : 64);
                        std::fill(a.begin() + i, a.begin() + j, x);
                        std::fill(e.begin() + i, e.begin() + j, (uint64_t)x);
                        break;
                    }
                    case 3: {
                        size_t mid = i + s.u(j - i);
                        std::rotate(a.begin() + i, a.begin() + mid, a.begin() + j);
                        std::rotate(e.begin() + i, e.begin() + mid, e.begin() + j);
                        break;
                    }
                    case 4: {
                        size_t t = s.u(n - (j - i));
                        if (t <= i) {
                            std::copy(a.begin() + i, a.begin() + j, a.begin() + t);
                            std::copy(e.begin() + i, e.begin() + j, e.begin() + t);
                        } else {
                            std::copy_backward(a.begin() + i, a.begin() + j, a.begin() + t + (j - i));
                            std::copy_backward(e.begin() + i, e.begin() + j, e.begin() + t + (j - i));
                        }
                        break;
                    }
                    default: {
                        auto mx = std::max_element(a.begin(), a.end());
                        eq(mx - a.begin(), std::max_element(e.begin(), e.end()) - e.begin(), "max_element");
                        eq(std::accumulate(a.begin(), a.end(), (uint64_t)0), std::accumulate(e.begin(), e.end(), (uint64_t)0), "accumulate");
                    }
                }
                for (size_t q = 0; q < n; ++q) ma.put(q, e[q]);
                break;
            }
            case 24: {
                flip(a, ma);
                break;
            }
            case 25: { // arbitrary content, incl. the bits of the last word beyond the end
                int sd = 1 + s.u(1000000);
                util::set_random_bits(a, sd);
                {   // the seed alone decides the content
                    IV other(a);
                    util::_set_zero_bits(other);
                    util::set_random_bits(other, sd);
                    req(other == a, "the same seed gives the same content");
                }
                for (size_t p = 0; p < B; p += 8) {
                    unsigned len = std::min<size_t>(8, B - p);
                    ma.set(p, a.get_int(p, len), len);
                }
                break;
            }
            case 26: {
                bool o = s.b();
                if (o) util::_set_one_bits(a);
                else util::_set_zero_bits(a);
                ma.m.assign(B, o);
                break;
            }
            case 27: make(k); break;
            case 28: {
                util::clear(a);
                ma.m.clear();
                ma.w = W ? W : 64;
                break;
            }
            default:
                if (n) define(k, s.u(B));
        }
    }
    void flip_(IV& a, Model& ma, std::true_type)
    {
        a.flip();
        ma.m.flip();
    }
    void flip_(IV&, Model&, std::false_type) {}
    void flip(IV& a, Model& ma)
    {
        flip_(a, ma, std::integral_constant<bool, W == 1>());
    }
    void run()
    {
        check("construction");
        size_t ops = s.in(1, 30);
        for (size_t i = 0; i < ops; ++i) {
            step();
            string what = "after operation " + str(i);
            check(what.c_str());
        }
        c.nt(ops > 3 and (m[0].m.size() or m[1].m.size() or m[2].m.size()));

    }
};
}

#define T(W, wt) TARGET("intvec" #W, wt) { Hist<W> h(s, c); h.run(); }
#if PART==0
T(0, 16000)
T(1, 6000)
#elif PART==1
T(8, 4000)
T(13, 4000)
T(16, 4000)
#elif PART==2
T(32, 4000)
T(33, 4000)
T(64, 4000)
#elif PART==3
T(3, 4000)
T(24, 4000)
T(63, 4000)
#endif
