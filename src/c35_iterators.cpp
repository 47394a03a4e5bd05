// C35: every container of the library is a random access container: its iterators walk over exactly its elements and
// obey the laws of iterators, so that standard algorithms work on it.
#include "values.hpp"
#include <numeric>

namespace
{
size_t views = 0, longest = 0;
template<class A> auto empty_fits(const A& a, size_t n, int) -> decltype(a.empty()) { return a.empty() == (n == 0); }
template<class A> bool empty_fits(const A&, size_t, long) { return true; }
// a view is anything with size(), operator[], begin() and end()
template<class A> void walk(Src& s, const A& a, const string& name)
{
    typedef typename std::decay<decltype(a.begin())>::type It;
    typedef typename std::iterator_traits<It>::difference_type D;
    const size_t n = a.size();
    ++views;
    longest = std::max(longest, n);
    vector<uint64_t> m(n);
    for (size_t i = 0; i < n; ++i) m[i] = a[i];
    string log;
    auto bad = [&](const string& what) { fail(name + " of " + str((uint64_t)n) + " elements: " + what + "; operations:" + log); };
    // all elements, forwards and backwards
    {
        size_t i = 0;
        for (auto x : a) {
            if (i >= n) bad("iteration does not end");
            if ((uint64_t)x != m[i]) bad("iteration, element " + str((uint64_t)i));
            ++i;
        }
        if (i != n) bad("iteration ends after " + str((uint64_t)i));
        It e = a.end();
        for (i = n; i-- > 0;) {
            --e;
            if ((uint64_t)*e != m[i]) bad("iteration backwards, element " + str((uint64_t)i));
        }
        if (!(e == a.begin())) bad("iteration backwards does not end at begin()");
    }
    if (!empty_fits(a, n, 0)) bad("empty()");
    // standard algorithms
    const It b = a.begin(), e = a.end();
    if ((size_t)std::distance(b, e) != n or (size_t)(e - b) != n or b - e != -(D)n) bad("distance");
    {
        std::reverse_iterator<It> rb(e), re(b);
        size_t i = n;
        for (; rb != re; ++rb) {
            if (i == 0) bad("reverse iteration does not end");
            if ((uint64_t)*rb != m[--i]) bad("reverse iteration, element " + str((uint64_t)i));
        }
        vector<uint64_t> copy(b, e);
        if (copy != m) bad("construction of a std::vector");
        uint64_t x = n ? m[s.u(n - 1)] : 5;
        if (s.b()) x += s.u(2);
        auto is = [&](uint64_t y) { return y == x; };
        if (std::find_if(b, e, is) - b != std::find_if(m.begin(), m.end(), is) - m.begin()) bad("std::find_if " + str(x));
        if (std::count_if(b, e, is) != std::count_if(m.begin(), m.end(), is)) bad("std::count_if " + str(x));
        if (std::accumulate(b, e, (uint64_t)7) != std::accumulate(m.begin(), m.end(), (uint64_t)7)) bad("std::accumulate");
        if (n and std::max_element(b, e) - b != std::max_element(m.begin(), m.end()) - m.begin()) bad("std::max_element");
        if (std::adjacent_find(b, e) - b != std::adjacent_find(m.begin(), m.end()) - m.begin()) bad("std::adjacent_find");
        size_t run = std::is_sorted_until(m.begin(), m.end()) - m.begin();
        if ((size_t)(std::is_sorted_until(b, e) - b) != run) bad("std::is_sorted_until");
        auto less = [](uint64_t p, uint64_t q) { return p < q; };
        if (std::lower_bound(b, b + run, x, less) - b != std::lower_bound(m.begin(), m.begin() + run, x) - m.begin()) bad("std::lower_bound " + str(x));
        if (std::upper_bound(b, b + run, x, less) - b != std::upper_bound(m.begin(), m.begin() + run, x) - m.begin()) bad("std::upper_bound " + str(x));
    }
    // a history on three iterators
    It it[3] = {b, e, b};
    size_t at[3] = {0, n, 0};
    size_t ops = s.len(30);
    for (size_t o = 0; o < ops; ++o) {
        size_t k = s.u(2), l = s.u(2), to = s.u(n);
        D d = (D)to - (D)at[k];
        log += " " + str((uint64_t)k);
        switch (s.u(11)) {
            case 0: if (at[k] < n) log += "++", ++it[k], ++at[k]; break;
            case 1:
                if (at[k] < n) {
                    log += "x++";
                    It old = it[k]++;
                    if ((uint64_t)*old != m[at[k]]) bad("x++ has a wrong result");
                    ++at[k];
                }
                break;
            case 2: if (at[k]) log += "--", --it[k], --at[k]; break;
            case 3:
                if (at[k]) {
                    log += "x--";
                    It old = it[k]--;
                    if (old - b != (D)at[k]) bad("x-- has a wrong result");
                    --at[k];
                }
                break;
            case 4: log += "+=" + std::to_string(d), it[k] += d, at[k] = to; break;
            case 5: log += "-=" + std::to_string(-d), it[k] -= -d, at[k] = to; break;
            case 6: log += "=+" + std::to_string(d), it[l] = it[k] + d, at[l] = to; break;
            case 7: log += "=-" + std::to_string(-d), it[l] = it[k] - (-d), at[l] = to; break;
            case 8: log += "n+" + std::to_string(d), it[l] = d + it[k], at[l] = to; break;
            case 9:
                if (to < n) {
                    log += "[" + std::to_string(d) + "]";
                    if ((uint64_t)it[k][d] != m[to]) bad("x[n]");
                }
                break;
            case 10: log += "swap", std::swap(it[k], it[l]), std::swap(at[k], at[l]); break;
            default: log += "=", it[l] = it[k], at[l] = at[k];
        }
        for (size_t i = 0; i < 3; ++i) {
            if (at[i] < n and (uint64_t) * it[i] != m[at[i]]) bad("iterator " + str((uint64_t)i) + " should be at " + str((uint64_t)at[i]));
            if (it[i] - b != (D)at[i]) bad("iterator " + str((uint64_t)i) + " - begin()");
            const It &p = it[i], &q = it[(i + 1) % 3];
            size_t u = at[i], v = at[(i + 1) % 3];
            if (q - p != (D)v - (D)u) bad("difference");
            if ((p == q) != (u == v) or (p != q) != (u != v) or (p < q) != (u < v) or (p > q) != (u > v) or (p <= q) != (u <= v) or (p >= q) != (u >= v)) bad("comparison");
        }
    }
}
template<class A> auto view(Src& s, const A& a, const string& name, int) -> decltype(a.begin(), a[0], void()) { walk(s, a, name); }
template<class A> void view(Src&, const A&, const string&, long) {}
template<class A> auto arrays(Src& s, const A& a, const string& n, int) -> decltype(a.psi, a.bwt, void())
{
    view(s, a.isa, n + "isa", 0);
    view(s, a.psi, n + "psi", 0);
    view(s, a.lf, n + "lf", 0);
    view(s, a.bwt, n + "bwt", 0);
    view(s, a.L, n + "L", 0);
    view(s, a.F, n + "F", 0);
    view(s, a.text, n + "text", 0);
}
template<class A> void arrays(Src&, const A&, const string&, long) {}
template<class A> auto csa_of(Src& s, const A& a, int) -> decltype(a.csa, void())
{
    view(s, a.csa, "csa", 0);
    arrays(s, a.csa, "csa.", 0);
}
template<class A> void csa_of(Src&, const A&, long) {}
template<class A> auto lcp_of(Src& s, const A& a, int) -> decltype(a.lcp, void()) { view(s, a.lcp, "lcp", 0); }
template<class A> void lcp_of(Src&, const A&, long) {}
template<class A> auto vec_of(Src& s, const A& a, int) -> decltype(a.v, a.s, void())
{
    view(s, a.v, "vector", 0);
    view(s, a.s.s, "support", 0);
}
template<class A> void vec_of(Src&, const A&, long) {}

template<class Kit> void containers(Src& s, Ctx& c, size_t max)
{
    typedef typename Kit::type T;
    uint64_t seed = s.seed();
    val::Tape t(seed);
    bool filled = !s.chance(1, 15);
    size_t m = std::min<size_t>(max, 300);
    auto p = val::make<Kit>(filled, t.s, m);
    c.describe([&]() { return string(filled ? "content " + str(seed) : "default constructed"); });
    views = longest = 0;
    auto all = [&](const T& x) {
        if (!filled and val::slow<Kit>::value) return; // a default constructed index has no arrays
        view(s, x, "container", 0);
        arrays(s, x, "", 0);
        csa_of(s, x, 0);
        lcp_of(s, x, 0);
        vec_of(s, x, 0);
    };
    if (s.chance(2, 3)) all(*p);
    else {
        T q(*p); // of a copy
        if (s.b()) p.reset();
        all(q);
    }
    c.nt(views and longest > 2);
}
}
#if PART == 4 or PART == 5
#define CASES 50
#elif PART == 2 or PART == 3
#define CASES 80
#else
#define CASES 250
#endif
#define X(name, max, kit) TARGET(#name, CASES) { using namespace val; containers<UNPAREN kit>(s, c, max); }
VALUES(X)
