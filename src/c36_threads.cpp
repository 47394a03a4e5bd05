// C36: one structure may be queried by many threads at once, and threads that work on objects of their own do not
// disturb each other (construction, serialization, in-memory files). Built with ThreadSanitizer: an unsynchronized
// access is reported whatever the timing; the answers must be those of a single thread.
#if PART != 7
#include "values.hpp"
#else
#include "gen.hpp"
#endif
#include <sdsl/io.hpp>
#include <sdsl/ram_fs.hpp>
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/memory_management.hpp>
#include <atomic>
#include <functional>
#include <memory>
#include <thread>
#if PART == 7
using namespace std;
using namespace sdsl;
using namespace pbt;
#endif

namespace
{
string gen_text(uint64_t seed, size_t n)
{
    Rng r(seed);
    string t(n, 0);
    for (auto& x : t) x = r.next();
    return t;
}
template<class F> void in_threads(size_t n, F f)
{
    vector<string> err(n);
    vector<std::thread> th;
    std::atomic<size_t> ready(0);
    for (size_t i = 0; i < n; ++i) th.emplace_back([&, i]() {
        ready.fetch_add(1, std::memory_order_relaxed);
        for (int k = 0; k < 20000 and ready.load(std::memory_order_relaxed) < n; ++k) {}
        try {
            f(i);
        } catch (pbt::Fail& e) {
            err[i] = e.msg;
        } catch (std::exception& e) {
            err[i] = string("exception ") + e.what();
        }
    });
    for (auto& t : th) t.join();
    for (size_t i = 0; i < n; ++i)
        if (err[i].size()) fail("thread " + str((uint64_t)i) + ": " + err[i]);
}

#if PART != 7
template<class Kit> val::Digest digest(const typename Kit::type& t)
{
    val::Digest d;
    Kit::ask(t, d);
    return d;
}
void same(const val::Digest& d, const val::Digest& w, const string& what)
{
    if (d == w) return;
    size_t k = 0;
    while (k < d.size() and k < w.size() and d[k] == w[k]) ++k;
    fail(what + ": answer " + str((uint64_t)k) + " differs (" + str((uint64_t)d.size()) + " of " + str((uint64_t)w.size()) + ")");
}
template<class Kit> void run(Src& s, Ctx& c, size_t max)
{
    typedef typename Kit::type T;
    auto build = [&](uint64_t seed) {
        val::Tape t(seed);
        return val::make<Kit>(true, t.s, max);
    };
    size_t n = 2 + s.u(2);
    bool shared = s.chance(2, 3);
    vector<uint64_t> seeds;
    for (size_t i = 0; i < (shared ? 1 : n); ++i) seeds.push_back(s.seed());
    int how = s.u(3); // what else a thread does with the shared object
    vector<val::Digest> want;
    for (auto x : seeds) want.push_back(digest<Kit>(*build(x)));
    c.nt(want[0].size() > 3);
    c.describe([&]() {
        return str((uint64_t)n) + " threads " + (shared ? "ask one object" : "work on objects of their own") + ", answers: " + str((uint64_t)want[0].size());
    });
    if (shared) {
        auto o = build(seeds[0]);
        std::stringstream first;
        if (how == 2) sdsl::serialize(*o, first);
        const T& t = *o; // not asked before
        in_threads(n, [&](size_t i) {
            if (how == 1 and i == 0) {
                T copy(t);
                same(digest<Kit>(copy), want[0], "copy of an object in use");
            }
            if (how == 2 and i == 0) {
                std::stringstream io;
                sdsl::serialize(t, io);
                if (io.str() != first.str()) fail("an object in use is serialized differently");
            }
            if (how == 3 and i == 0) sdsl::size_in_bytes(t);
            same(digest<Kit>(t), want[0], "shared object");
            same(digest<Kit>(t), want[0], "shared object, asked again");
        });
        c.label("shared");
    } else {
        string tag = "@c36_" + str((uint64_t)s.u(3)) + "_";
        in_threads(n, [&](size_t i) {
            auto p = build(seeds[i]);
            same(digest<Kit>(*p), want[i], "own object");
            T q(*p), r(std::move(q));
            p.reset();
            same(digest<Kit>(r), want[i], "copy of an own object");
            string f = tag + str((uint64_t)i);
            req(store_to_file(r, f), "store_to_file");
            auto x = build(seeds[i]);
            req(load_from_file(*x, f), "load_from_file");
            same(digest<Kit>(*x), want[i], "own object loaded");
            if (sdsl::remove(f)) fail("cannot remove an own in-memory file");
        });
        c.label("own objects");
    }
}
#endif
}
#if PART < 7
#if PART == 4 or PART == 5
#define CASES 12
#elif PART == 2 or PART == 3
#define CASES 16
#else
#define CASES 30
#endif
#define X(name, max, kit) \
    TARGET(#name, CASES) { run<UNPAREN kit>(s, c, max); }
using namespace val;
VALUES(X)
#else
TARGET("ram_files", 150)
{
    size_t n = 2 + s.u(2), ops = 4 + s.u(20);
    vector<uint64_t> seeds;
    for (size_t i = 0; i < n; ++i) seeds.push_back(s.seed());
    string common = "@c36_common", text = gen_text(s.seed(), s.len(2000));
    {
        osfstream o(common);
        o.write(text.data(), text.size());
    }
    c.nt(ops > 5);
    c.describe([&]() {
        return str((uint64_t)n) + " threads, " + str((uint64_t)ops) + " operations on in-memory files each";
    });
    in_threads(n, [&](size_t i) {
        Rng r(seeds[i]);
        std::map<string, string> m; // my files
        string pre = "@c36_" + str((uint64_t)i) + "_";
        auto name = [&]() { return pre + str((uint64_t)r.below(4)); };
        for (size_t k = 0; k < ops; ++k) {
            string f = name(), g = name(), x = gen_text(r.next(), r.below(300));
            switch (r.below(7)) {
                case 0: {
                    osfstream o(f, std::ios::out | std::ios::trunc);
                    req((bool)o, "open for writing");
                    o.write(x.data(), x.size());
                    m[f] = x;
                    break;
                }
                case 1:
                    ram_fs::store(f, ram_fs::content_type(x.begin(), x.end()));
                    m[f] = x;
                    break;
                case 2: {
                    isfstream in(f);
                    if ((bool)in != (m.count(f) > 0)) fail("opening an own file");
                    if (!in) break;
                    string y(m[f].size() + 1, 'x');
                    in.read(&y[0], y.size());
                    y.resize(in.gcount());
                    if (y != m[f]) fail("content of an own file");
                    break;
                }
                case 3:
                    if ((sdsl::remove(f) == 0) != (m.erase(f) > 0)) fail("remove");
                    break;
                case 4: {
                    bool there = m.count(f);
                    if ((sdsl::rename(f, g) == 0) != there) fail("rename");
                    if (there and f != g) {
                        m[g] = m[f];
                        m.erase(f);
                    }
                    break;
                }
                case 5:
                    if (ram_fs::exists(f) != (m.count(f) > 0)) fail("exists");
                    if (ram_fs::file_size(f) != (m.count(f) ? m[f].size() : 0)) fail("file_size");
                    break;
                default: { // a file all threads read
                    isfstream in(common);
                    string y(text.size(), 'x');
                    in.read(&y[0], y.size());
                    if ((size_t)in.gcount() != text.size() or y != text) fail("content of a shared file");
                }
            }
        }
        for (auto& x : m) {
            if (string(ram_fs::content(x.first).begin(), ram_fs::content(x.first).end()) != x.second) fail("content at the end");
            sdsl::remove(x.first);
        }
    });
    sdsl::remove(common);
}
TARGET("names", 150)
{
    size_t n = 2 + s.u(3), k = 1 + s.u(60);
    c.nt(k > 1);
    c.describe([&]() {
        return str((uint64_t)n) + " threads ask for " + str((uint64_t)k) + " names";
    });
    cache_config cfg(true, "@", "c36");
    vector<vector<string>> got(n);
    in_threads(n, [&](size_t i) {
        for (size_t j = 0; j < k; ++j) switch ((i + j) % 3) {
                case 0: got[i].push_back("id" + str((uint64_t)util::id())); break;
                case 1: got[i].push_back(tmp_file(cfg, "t")); break;
                default: got[i].push_back(cache_config().id); break;
            }
    });
    std::map<string, int> seen;
    for (auto& g : got)
        for (auto& x : g)
            if (seen[x]++) fail("two users got the name " + x);
}
TARGET("construction", 40)
{
    size_t n = 2 + s.u(2);
    vector<string> text;
    for (size_t i = 0; i < n; ++i) text.push_back(gen_text(s.seed(), 1 + s.u(300)));
    for (auto& t : text)
        for (auto& x : t) x = 'a' + ((unsigned char)x % 7);
    bool ram = s.b();
    c.nt(text[0].size() > 3);
    c.describe([&]() {
        return str((uint64_t)n) + " indexes built at the same time in " + (ram ? "memory" : "one directory");
    });
    string dir = ram ? "@" : scratch();
    in_threads(n, [&](size_t i) {
        string f = dir + "c36_text" + str((uint64_t)i);
        req(store_to_file(text[i].c_str(), f), "store the text");
        cache_config cfg(true, ram ? "@" : dir);
        csa_wt<wt_huff<>, 4, 4> a;
        construct(a, f, cfg, 1);
        if (extract(a, 0, a.size() - 2) != text[i]) fail("text of an index built beside others");
        csa_sada<> b;
        construct(b, f, 1);
        if (extract(b, 0, b.size() - 2) != text[i]) fail("text of an index built beside others");
        wt_int<> w;
        int_vector<> v(text[i].size(), 0, 8);
        for (size_t k = 0; k < v.size(); ++k) v[k] = (unsigned char)text[i][k];
        construct_im(w, v);
        for (size_t k = 0; k < v.size(); ++k)
            if (w[k] != v[k]) fail("wavelet tree built beside others");
        sdsl::remove(f);
    });
}
TARGET("recorded_memory", 60)
{
    size_t n = 2 + s.u(2), ops = 1 + s.u(30);
    vector<uint64_t> seeds;
    for (size_t i = 0; i < n; ++i) seeds.push_back(s.seed());
    c.nt(ops > 3);
    c.describe([&]() {
        return str((uint64_t)n) + " threads, " + str((uint64_t)ops) + " vectors each while the memory monitor runs";
    });
    memory_monitor::granularity(std::chrono::milliseconds(0));
    memory_monitor::start();
    vector<vector<int_vector<>>> kept(n);
    in_threads(n, [&](size_t i) {
        Rng r(seeds[i]);
        for (size_t k = 0; k < ops; ++k) {
            if (kept[i].size() and r.chance(1, 3)) kept[i].pop_back();
            else kept[i].emplace_back(1 + r.below(1000), r.next(), 1 + r.below(64));
        }
        for (size_t k = 0; k < kept[i].size(); ++k)
            for (size_t j = 1; j < kept[i][k].size(); ++j)
                if (kept[i][k][j] != kept[i][k][0]) fail("content of a vector");
    });
    memory_monitor::stop();
}
#endif
