// C25: succinct sorted stacks behave like a stack.
#include "pbt.hpp"
#include "gen.hpp"
#include <sdsl/sorted_int_stack.hpp>
#include <sdsl/sorted_stack_support.hpp>
#include <sdsl/sorted_multi_stack_support.hpp>
#include <sstream>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

enum Kind { INT, SUPPORT, MULTI };
template<class S, Kind kind> struct Model {
    S s;
    uint64_t n;
    vector<uint64_t> v;
    Model(uint64_t n) : s(n), n(n) {}
    void push(uint64_t x)
    {
        do_push(s, x, std::integral_constant<bool, kind == MULTI>());
        v.push_back(x);
    }
    void do_push(S& s, uint64_t x, std::false_type)
    {
        s.push(x);
    }
    void do_push(S& s, uint64_t x, std::true_type)
    {
        bool want = v.empty() or v.back() < x;
        if (s.push(x) != want) fail("push(" + str(x) + "): want " + str((uint64_t)want));
    }
    void pop()
    {
        do_pop(s, std::integral_constant<bool, kind == MULTI>());
        if (v.size()) v.pop_back();
    }
    void do_pop(S& s, std::false_type)
    {
        s.pop();
    }
    void do_pop(S& s, std::true_type)
    {
        bool want = v.size() == 1 or (v.size() > 1 and v[v.size() - 2] != v.back());
        if (s.pop() != want) fail("pop with " + str(v.size()) + " elements: want " + str((uint64_t)want));
    }
    void check() const
    {
        if (s.size() != v.size()) fail("size: got " + str(s.size()) + " want " + str(v.size()));
        if (s.empty() != v.empty()) fail("empty");
        if (v.size() and s.top() != v.back()) fail("top: got " + str(s.top()) + " want " + str(v.back()) + " of " + str(v.size()) + " elements");
    }
};

template<class S, Kind kind> void run(Src& s, Ctx& c)
{
    uint64_t n;
    switch (s.pick({3, 3, 2, 1})) {
        case 0: n = s.u(200); break;
        case 1: n = 63 * s.u(70) + s.u(4); n = n > 2 ? n - 2 : n; c.label("range near a multiple of 63"); break;
        case 2: n = s.u(5000); break;
        default: n = s.u(300000);
    }
    typedef Model<S, kind> M;
    uint64_t n2 = s.b() ? n : s.u(1000);
    M a(n), b(n2);
    size_t ops = s.len(80), pushed = 0, popped = 0, high = 0;
    string log;
    c.describe([&]() {
        return "range " + str(n) + " and " + str(n2) + ":" + log;
    });
    Rng r(s.seed());
    for (size_t o = 0; o < ops; ++o) {
        M& x = s.chance(1, 6) ? b : a;
        M& y = &x == &a ? b : a;
        const char* nm = &x == &a ? " a." : " b.";
        size_t op = s.pick({10, 8, 3, 2, 1, 1, 1, 1});
        switch (op) {
            case 0: case 2: { // a series of pushes with chosen gaps
                size_t k = op == 0 ? 1 + s.u(3) : 1 + r.below(150);
                size_t gap = s.u(5);
                log += string(nm) + "push*" + str(k) + "/" + str(gap);
                for (size_t i = 0; i < k; ++i) {
                    uint64_t lo = x.v.empty() ? 0 : kind == MULTI ? x.v.back() : x.v.back() + 1, p = lo;
                    switch (gap) {
                        case 0: p += r.below(3); break;
                        case 1: p += r.below(70); break;
                        case 2: p += 63 * r.below(5) + r.below(3); break; // whole words
                        case 3: p = lo / 63 * 63 + r.below(64); if (p < lo) p = lo; break;
                        case 4: p = x.n > lo ? lo + r.below(x.n - lo + 1) : lo; break;
                        default: p = x.n > 3 and x.n - 3 > lo ? x.n - r.below(4) : lo;
                    }
                    if (kind == INT) { // anything may be stored
                        if (r.chance(1, 40)) p = std::max(lo, x.n + 1 + r.below(3));
                        if (r.chance(1, 200)) p = std::max(lo, r.next() >> (1 + r.below(40)));
                        if (p < lo or p > ~0ULL - 64) continue;
                        if (p > x.n) ++high;
                    } else {
                        if (p > x.n) p = x.n;
                        if (p < lo) continue; // full
                    }
                    x.push(p);
                    ++pushed;
                    if (k < 10 or r.chance(1, 10)) x.check();
                }
                break;
            }
            case 1: case 3: {
                size_t k = op == 1 ? 1 + s.u(3) : 1 + r.below(200);
                log += string(nm) + "pop*" + str(k);
                for (size_t i = 0; i < k and !x.v.empty(); ++i, ++popped) {
                    x.pop();
                    x.check();
                }
                break;
            }
            case 4: {
                log += string(nm) + "reload";
                std::stringstream st;
                x.s.serialize(st);
                S z(s.b() ? 0 : 100);
                z.load(st);
                x.s = z;
                break;
            }
            case 5:
                log += string(nm) + "assign";
                y.s = x.s;
                y.n = x.n;
                y.v = x.v;
                break;
            case 6: {
                log += string(nm) + "move";
                S z(std::move(x.s));
                x.s = S(0);
                x.s = std::move(z);
                break;
            }
            default: {
                log += " swap";
                std::swap(a.s, b.s);
                std::swap(a.n, b.n);
                a.v.swap(b.v);
            }
        }
        a.check();
        b.check();
    }
    c.nt(pushed > 3 and popped > 2);
    if (high) c.label("values above the range");
    for (M* x : {&a, &b}) while (!x->v.empty()) {
            x->pop();
            x->check();
        }
    for (M* x : {&a, &b}) { // popping an empty stack is ignored
        x->s.pop();
        x->check();
        x->push(x->n);
        x->check();
    }
}
TARGET("int_stack", 1500) { run<sorted_int_stack, INT>(s, c); }
TARGET("stack_support", 1500) { run<sorted_stack_support, SUPPORT>(s, c); }
TARGET("multi_stack", 1500) { run<sorted_multi_stack_support, MULTI>(s, c); }
