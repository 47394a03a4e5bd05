// C06: what was serialized can be loaded again: same answers, same bytes, exactly consumed, from any stream, into any
// object; a file stored with its type is only accepted by that type.
#include "values.hpp"
#include <sdsl/io.hpp>
#include <sdsl/ram_fs.hpp>
#include <fstream>
#include <functional>

namespace
{
typedef std::function<bool(const string&)> Loader; // load_from_checked_file of some type
std::map<string, Loader>& loaders()
{
    static std::map<string, Loader> m;
    return m;
}
template<class Kit> val::Digest digest(const typename Kit::type& t)
{
    val::Digest d;
    Kit::ask(t, d);
    return d;
}
template<class T> string bytes_of(const T& t, const char* what)
{
    std::stringstream o;
    uint64_t w = sdsl::serialize(t, o);
    if (w != o.str().size()) fail(string(what) + ": serialize returned " + str(w) + " but wrote " + str((uint64_t)o.str().size()) + " bytes");
    return o.str();
}
void same_answers(const val::Digest& d, const val::Digest& w, const string& what)
{
    if (d == w) return;
    size_t k = 0;
    while (k < d.size() and k < w.size() and d[k] == w[k]) ++k;
    fail(what + ": answer " + str((uint64_t)k) + " differs (" + str((uint64_t)d.size()) + " of " + str((uint64_t)w.size()) + "): got " + (k < d.size() ? str(d[k]) : "-") + " want " + (k < w.size() ? str(w[k]) : "-"));
}
// an object at a place in memory which held something else before
template<class Kit> struct Placed {
    typedef typename Kit::type T;
    void* mem;
    T* p = nullptr;
    Placed(uint8_t fill) : mem(::operator new(sizeof(T))) { memset(mem, fill, sizeof(T)); }
    ~Placed()
    {
        if (p) p->~T();
        ::operator delete(mem);
    }
};
template<class Kit> auto place_default(Placed<Kit>& m, int) -> decltype((void)typename Kit::type()) { m.p = new (m.mem) typename Kit::type(); }
template<class Kit> void place_default(Placed<Kit>& m, long) { m.p = new (m.mem) typename Kit::type(*val::make<Kit>(false, *new Src(nullptr, 0, 0, false, 0), 3)); }

template<class T> auto through_cache(const T& other, const T& t, T& x, bool ram, bool hash, bool twice, size_t more, int) -> decltype((void)T(), true)
{
    cache_config cfg(true, ram ? "@" : scratch(), "c06id");
    // values of other types under the same key: told apart by their type if stored with it
    typedef typename std::conditional<std::is_same<T, int_vector<>>::value, bit_vector, int_vector<>>::type U;
    U u(10 + more, 1), v;
    if (more == 1 or more == 3) req(store_to_cache(u, "key", cfg, true), "store_to_cache");
    bool plain = more > 1 and hash; // the other one goes without a type
    if (twice) req(store_to_cache(other, "key", cfg, hash), "store_to_cache"); // will be replaced
    req(store_to_cache(t, "key", cfg, hash), "store_to_cache");
    if (more == 2) req(store_to_cache(u, "key", cfg, true), "store_to_cache");
    if (plain) req(store_to_cache(int_vector<8>(5, 1), "key", cfg), "store_to_cache");
    req(hash ? cache_file_exists<T>("key", cfg) : cache_file_exists("key", cfg), "cache_file_exists");
    if (cache_file_exists<U>("key", cfg) != (more > 0)) fail("cache_file_exists for another type");
    if (cache_file_exists("key", cfg) != (!hash or plain)) fail("cache_file_exists without a type");
    req(load_from_cache(x, "key", cfg, hash), "load_from_cache");
    if (more) {
        req(load_from_cache(v, "key", cfg, true), "load_from_cache");
        if (v != u) fail("the value of another type with the same key was changed");
    }
    util::delete_all_files(cfg.file_map);
    if (cache_file_exists<T>("key", cfg) or cache_file_exists<U>("key", cfg) or cache_file_exists("key", cfg)) fail("a file is left after deleting all files of the cache");
    return true;
}
template<class T> bool through_cache(const T&, const T&, T&, bool, bool, bool, size_t, long) { return false; } // the name needs a default constructor
template<class Kit> void run(Src& s, Ctx& c, size_t max)
{
    typedef typename Kit::type T;
    typedef std::unique_ptr<T> P;
    auto build = [&](uint64_t seed) {
        if (!seed) {
            val::Tape t(1);
            return val::make<Kit>(false, t.s, max);
        }
        val::Tape t(seed);
        return val::make<Kit>(true, t.s, max);
    };
    // contents: 0 is the default constructed object
    uint64_t seeds[3] = {0, s.seed(), s.seed()};
    P obj[3];
    string bytes[3];
    val::Digest want[3];
    for (int k = 0; k < 3; ++k) {
        obj[k] = build(seeds[k]);
        bytes[k] = bytes_of(*obj[k], "original");
        want[k] = digest<Kit>(*obj[k]);
    }
    c.nt(want[1].size() > 3);
    c.describe([&]() {
        return "bytes of the contents: " + str((uint64_t)bytes[0].size()) + " " + str((uint64_t)bytes[1].size()) + " " + str((uint64_t)bytes[2].size());
    });
    auto target = [&](const char*& from) { // an object to load into
        size_t how = s.u(3);
        if (how == 0) {
            from = "a new object";
            return build(0);
        }
        from = how == 1 ? "an object with content" : how == 2 ? "a copy" : "an object moved from";
        P x = build(seeds[s.u(2)]);
        if (how == 2) x.reset(new T(T(*x)));
        if (how == 3) {
            T y(std::move(*x));
            (void)y;
        }
        return x;
    };
    auto check = [&](T& t, int k, const string& what) {
        same_answers(digest<Kit>(t), want[k], what);
        if (bytes_of(t, "loaded") != bytes[k]) fail(what + ": the loaded structure serializes differently");
        same_answers(digest<Kit>(t), want[k], what + " (asked again)");
    };
    switch (s.pick({4, 3, 3, 2, 3, 2, 1})) {
        case 0: { // several objects in a row, something else behind
            size_t n = 1 + s.u(3);
            vector<int> ks;
            std::stringstream io;
            for (size_t i = 0; i < n; ++i) {
                ks.push_back(s.u(2));
                sdsl::serialize(*obj[ks[i]], io);
            }
            io << "tail";
            size_t at = 0;
            vector<P> in(n);
            for (size_t i = 0; i < n; ++i) {
                const char* from;
                in[i] = target(from);
                sdsl::load(*in[i], io);
                at += bytes[ks[i]].size();
                if (!io.good()) fail("the stream is not good after loading");
                if ((uint64_t)io.tellg() != at) fail(string("load into ") + from + " consumed " + str((uint64_t)io.tellg() - (at - bytes[ks[i]].size())) + " bytes of " + str((uint64_t)bytes[ks[i]].size()));
                check(*in[i], ks[i], string("loaded from a stream into ") + from);
            }
            string tail;
            io >> tail;
            req(tail == "tail", "the rest of the stream");
            for (size_t i = 0; i < n; ++i) check(*in[i], ks[i], "at the end");
            c.label("stream");
            break;
        }
        case 1: case 2: { // files
            bool ram = s.b();
            string f = ram ? string("@c06") : scratch() + "c06";
            int k = s.u(2), j = s.u(2);
            if (s.b()) store_to_file(*obj[j], f); // something is there already
            req(store_to_file(*obj[k], f), "store_to_file");
            if (util::file_size(f) != bytes[k].size()) fail("file of " + str((uint64_t)util::file_size(f)) + " bytes");
            const char* from;
            P x = target(from);
            req(load_from_file(*x, f), "load_from_file");
            check(*x, k, string("loaded from a file into ") + from);
            sdsl::remove(f);
            req(!load_from_file(*x, f), "loading a missing file");
            c.label(ram ? "in-memory file" : "disk file");
            break;
        }
        case 3: { // checked files
            bool ram = s.b();
            string f = ram ? string("@c06c") : scratch() + "c06c";
            int k = s.u(2);
            req(store_to_checked_file(*obj[k], f), "store_to_checked_file");
            const char* from;
            P x = target(from);
            req(load_from_checked_file(*x, f), "load_from_checked_file");
            check(*x, k, string("loaded from a checked file into ") + from);
            string mine = util::demangle(typeid(T).name());
            size_t asked = 0;
            for (auto& l : loaders()) {
                if (l.first == mine) continue;
                ++asked;
                if (l.second(f)) fail("a file written as " + mine + " is accepted as " + l.first);
            }
            if (asked) c.label("refused by other types");
            sdsl::remove(f);
            sdsl::remove(f + "_check");
            break;
        }
        case 4: { // cache
            int k = s.u(2), j = s.u(2);
            bool ram = s.b(), hash = s.b(), twice = s.b();
            const char* from;
            P x = target(from);
            if (through_cache(*obj[j], *obj[k], *x, ram, hash, twice, s.u(3), 0)) {
                check(*x, k, string("loaded from the cache into ") + from);
                c.label("cache");
            }
            break;
        }
        case 5: { // vectors of structures
            size_t n = s.u(4);
            vector<T> v, w;
            vector<int> ks;
            for (size_t i = 0; i < n; ++i) {
                ks.push_back(s.u(2));
                v.push_back(*obj[ks[i]]);
            }
            for (size_t i = s.u(3); i--;) w.push_back(*obj[1]);
            w.resize(n, *obj[2]);
            std::stringstream io;
            uint64_t b = sdsl::serialize(v, io);
            string all = io.str();
            eq(b, (uint64_t)all.size(), "bytes of a vector");
            uint64_t sz = 0;
            load(sz, io);
            eq(sz, (uint64_t)n, "size of the vector");
            load_vector(w, io);
            eq((uint64_t)io.tellg(), (uint64_t)all.size(), "bytes read for a vector");
            for (size_t i = 0; i < n; ++i) check(w[i], ks[i], "element of a vector");
            c.label("vector");
            break;
        }
        default: { // the state does not depend on what the memory held before
            Placed<Kit> a(0), b(0xFF);
            place_default<Kit>(a, 0);
            place_default<Kit>(b, 0);
            string x = bytes_of(*a.p, "default constructed"), y = bytes_of(*b.p, "default constructed");
            if (x != y) fail("a default constructed object writes bytes that were never set");
            same_answers(digest<Kit>(*b.p), want[0], "default constructed");
            for (auto* m : {&a, &b}) {
                std::stringstream io(x);
                sdsl::load(*m->p, io);
                check(*m->p, 0, "empty object loaded");
            }
            for (auto* m : {&a, &b}) {
                std::stringstream io(bytes[1]);
                sdsl::load(*m->p, io);
                check(*m->p, 1, "loaded");
            }
            for (auto* m : {&a, &b}) { // and back to the default state
                std::stringstream io(x);
                sdsl::load(*m->p, io);
                check(*m->p, 0, "empty content loaded over a content");
            }
            c.label("default constructed");
        }
    }
}
template<class Kit> struct Register {
    Register()
    {
        typedef typename Kit::type T;
        loaders()[util::demangle(typeid(T).name())] = [](const string& f) {
            val::Tape t(1);
            auto x = val::make<Kit>(false, t.s, 3);
            return load_from_checked_file(*x, f);
        };
    }
};
}
#if PART == 4 or PART == 5
#define CASES 24
#elif PART == 2 or PART == 3
#define CASES 32
#else
#define CASES 50
#endif
#define X(name, max, kit) \
    static Register<UNPAREN kit> reg_##name; \
    TARGET(#name, CASES) { run<UNPAREN kit>(s, c, max); }
using namespace val;
VALUES(X)

#if PART == 0
// plain data and vectors of it
template<class T, class F> void plain(Src& s, Ctx& c, F gen)
{
    vector<T> v, w;
    size_t n = s.len(300);
    for (size_t i = 0; i < n; ++i) v.push_back(gen(s));
    for (size_t i = s.len(20); i--;) w.push_back(gen(s));
    c.nt(n > 1);
    c.describe([&]() {
        return str((uint64_t)n) + " elements";
    });
    std::stringstream io;
    uint64_t b = sdsl::serialize(v, io);
    eq(b, (uint64_t)io.str().size(), "bytes written");
    io << "tail";
    sdsl::load(w, io);
    eq((uint64_t)io.tellg(), b, "bytes read");
    req(v == w, "vector of plain data");
    T x = n ? v[0] : gen(s), y = gen(s);
    std::stringstream one;
    eq((uint64_t)write_member(x, one), (uint64_t)one.str().size(), "bytes of a member");
    read_member(y, one);
    req(x == y, "member");
    eq((uint64_t)one.tellg(), (uint64_t)one.str().size(), "bytes read for a member");
}
TARGET("plain_u64", 300) { plain<uint64_t>(s, c, [](Src& s) { return s.val(); }); }
TARGET("plain_u8", 300) { plain<uint8_t>(s, c, [](Src& s) { return (uint8_t)s.val(8); }); }
TARGET("plain_i32", 300) { plain<int32_t>(s, c, [](Src& s) { return (int32_t)s.val(32); }); }
TARGET("plain_double", 300) { plain<double>(s, c, [](Src& s) { return (double)s.val(50) / 7; }); }
TARGET("plain_string", 600)
{
    vector<string> v, w;
    size_t n = s.len(20);
    Rng r(s.seed());
    std::stringstream io;
    vector<uint64_t> ends;
    uint64_t at = 0;
    for (size_t i = 0; i < n; ++i) {
        string t(r.below(r.chance(1, 3) ? 3 : 100), 0);
        for (auto& x : t) x = r.chance(1, 9) ? 0 : (char)r.next();
        v.push_back(t);
        at += write_member(t, io);
        ends.push_back(at);
        eq(at, (uint64_t)io.str().size(), "bytes of strings");
    }
    c.nt(n > 1);
    for (size_t i = 0; i < n; ++i) {
        string t = "old";
        read_member(t, io);
        if (t != v[i]) fail("string " + pbt::quoted(v[i]) + " read as " + pbt::quoted(t));
        eq((uint64_t)io.tellg(), ends[i], "bytes read");
    }
}
#endif
