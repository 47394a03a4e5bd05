// C07: structures are independent values. A history of copies, moves, swaps, assignments, reloads and destructions over
// four objects; every object answers like a freshly built one with the content it logically holds.
#include "values.hpp"

namespace
{
template<class T> auto do_swap(T& a, T& b, int) -> decltype(a.swap(b), void()) { a.swap(b); }
template<class T> void do_swap(T& a, T& b, long) { std::swap(a, b); }

template<class Kit> val::Digest digest(const typename Kit::type& t)
{
    val::Digest d;
    Kit::ask(t, d);
    return d;
}

template<class Kit> void history(Src& s, Ctx& c, size_t max)
{
    typedef typename Kit::type T;
    typedef std::unique_ptr<T> P;
    const int K = val::slow<Kit>::value ? 2 : 3, N = 4;
    uint64_t seed[4] = {0};
    string bytes[4];
    val::Digest want[4]; // content 0 is the default constructed state
    auto build = [&](int k) {
        val::Tape t(seed[k]);
        return val::make<Kit>(k > 0, t.s, max);
    };
    for (int k = 0; k <= K; ++k) {
        if (k) seed[k] = s.seed();
        P p = build(k);
        want[k] = digest<Kit>(*p);
        if (val::slow<Kit>::value) { // is written, to save building it again
            std::stringstream io;
            sdsl::serialize(*p, io);
            bytes[k] = io.str();
        }
    }
    auto again = [&](int k) {
        if (!val::slow<Kit>::value or k == 0 or s.chance(1, 5)) return build(k);
        P p = build(0);
        std::stringstream io(bytes[k]);
        sdsl::load(*p, io);
        return p;
    };
    P obj[N];
    int has[N]; // content of an object, -1: moved from, -2: no object
    for (int& x : has) x = -2;
    string log;
    c.describe([&]() {
        return "answers of the contents: " + str((uint64_t)want[1].size()) + " " + str((uint64_t)want[2].size()) + " " + str((uint64_t)want[3].size()) + "; history:" + log;
    });
    auto check = [&](int i, const char* op) {
        if (has[i] < 0) return;
        val::Digest d = digest<Kit>(*obj[i]);
        const val::Digest& w = want[has[i]];
        if (d == w) return;
        size_t k = 0;
        while (k < d.size() and k < w.size() and d[k] == w[k]) ++k;
        fail(string(op) + ": object " + str((uint64_t)i) + " answers differently from its content " + str((uint64_t)has[i]) + " (answer " + str((uint64_t)k) + " of " + str((uint64_t)w.size()) + ", " + str((uint64_t)d.size()) + " given; got "
             + (k < d.size() ? str(d[k]) : "-") + " want " + (k < w.size() ? str(w[k]) : "-") + "); history:" + log);
    };
    size_t ops = 3 + s.len(22), moved = 0;
    for (size_t o = 0; o < ops; ++o) {
        int i = s.u(N - 1), j = (i + 1 + s.u(N - 2)) % N;
        size_t op = s.pick({3, 4, 4, 3, 3, 4, 2, 1, 2, 1});
        const char* name = "";
        auto note = [&](const char* what) {
            name = what;
            log += string(" ") + what + "(" + str((uint64_t)i) + "," + str((uint64_t)j) + ")";
        };
        if (has[i] == -2) op = op == 1 or op == 3 ? op : 0; // no object yet
        switch (op) {
            case 0: {
                int k = s.u(K);
                note("build");
                log += "=" + str((uint64_t)k);
                if (has[i] >= -1 and s.b() and (!val::slow<Kit>::value or s.chance(1, 5))) { // build inside the existing object
                    val::Tape t(seed[k]);
                    val::rebuild<Kit>(*obj[i], k > 0, t.s, max);
                } else obj[i] = again(k);
                has[i] = k;
                break;
            }
            case 1: // copy construction
                if (has[j] < 0) continue;
                note("copy construct");
                obj[i].reset();
                obj[i].reset(new T(*obj[j]));
                has[i] = has[j];
                break;
            case 2: // copy assignment
                if (has[j] < 0) continue;
                note("copy assign");
                *obj[i] = *obj[j];
                has[i] = has[j];
                break;
            case 3: // move construction
                if (has[j] < 0) continue;
                note("move construct");
                obj[i].reset(new T(std::move(*obj[j])));
                has[i] = has[j];
                has[j] = -1;
                ++moved;
                break;
            case 4: // move assignment
                if (has[j] < 0) continue;
                note("move assign");
                *obj[i] = std::move(*obj[j]);
                has[i] = has[j];
                has[j] = -1;
                ++moved;
                break;
            case 5: // swap
                if (has[j] < 0 or has[i] < 0) continue;
                if (s.chance(1, 3)) {
                    note("std::swap");
                    using std::swap;
                    std::swap(*obj[i], *obj[j]);
                } else {
                    note("swap");
                    do_swap(*obj[i], *obj[j], 0);
                }
                std::swap(has[i], has[j]);
                break;
            case 6: // to itself
                if (has[i] < 0) continue;
                j = i;
                if (s.b()) {
                    note("self assign");
                    const T& me = *obj[i];
                    *obj[i] = me;
                } else {
                    note("self swap");
                    do_swap(*obj[i], *obj[i], 0);
                }
                break;
            case 7:
                note("destroy");
                obj[i].reset();
                has[i] = -2;
                break;
            case 8: { // load what another object writes
                if (has[j] < 0) continue;
                note("load");
                std::stringstream io;
                sdsl::serialize(*obj[j], io);
                sdsl::load(*obj[i], io);
                has[i] = has[j];
                break;
            }
            default: { // by value through a function and a container
                if (has[i] < 0) continue;
                note("vector");
                std::vector<T> v;
                for (int k = 0; k < 3; ++k) v.push_back(*obj[i]);
                v.erase(v.begin());
                *obj[i] = v[1];
            }
        }
        check(i, name);
        check(j, name);
    }
    for (int i = 0; i < N; ++i) check(i, "at the end");
    // destroy in any order
    for (int k = 0; k < N; ++k) {
        int i = s.u(N - 1);
        obj[i].reset();
        has[i] = -2;
        for (int j = 0; j < N; ++j) check(j, "after a destruction");
    }
    if (moved) c.label("moved");
    c.nt(want[1].size() > 3 and ops > 3);
}
}
#if PART == 4 or PART == 5
#define CASES 24
#elif PART == 2 or PART == 3
#define CASES 40
#else
#define CASES 60
#endif
#define X(name, max, kit) TARGET(#name, CASES) { using namespace val; history<UNPAREN kit>(s, c, max); }
VALUES(X)
