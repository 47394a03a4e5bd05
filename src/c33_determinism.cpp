// C33: a structure is a function of the data it is built from. The same content is built in memory that held different
// garbage before (heap, stack, the object itself), after different histories of the target object, and is read with
// any number of queries in between: the serialized bytes and the answers are always the same.
#include "values.hpp"
#include "csacommon.hpp"
#include <malloc.h>

namespace
{
int fill_on = 0;
uint8_t fill_byte = 0;
inline void paint(void* p, size_t from, size_t to)
{
    if (fill_on and p and from < to and to - from < (64u << 20)) memset((uint8_t*)p + from, fill_byte, to - from);
}
}
extern "C" {
    void* __real_malloc(size_t n);
    void* __real_realloc(void* p, size_t n);
    void* __wrap_malloc(size_t n)
    {
        void* p = __real_malloc(n);
        paint(p, 0, n);
        return p;
    }
    void* __wrap_realloc(void* q, size_t n)
    {
        size_t old = q ? malloc_usable_size(q) : 0;
        void* p = __real_realloc(q, n);
        paint(p, old, n);
        return p;
    }
}
void* operator new(size_t n)
{
    void* p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    paint(p, 0, n);
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
    void* p = __real_malloc(n ? n : 1);
    paint(p, 0, n);
    return p;
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }

namespace
{
__attribute__((noinline, no_sanitize("address"))) void paint_stack(uint8_t b)
{
    volatile uint8_t mem[150000];
    for (size_t i = 0; i < sizeof(mem); ++i) mem[i] = b;
}
struct Garbage { // what memory contains that was not written yet
    Garbage(uint8_t b)
    {
        fill_byte = b;
        fill_on = 1;
        paint_stack(b);
    }
    ~Garbage() { fill_on = 0; }
};
template<class T> string bytes(const T& t)
{
    std::stringstream o;
    sdsl::serialize(t, o);
    return o.str();
}
void same(const string& a, const string& b, const char* what)
{
    if (a == b) return;
    size_t k = 0;
    while (k < a.size() and k < b.size() and a[k] == b[k]) ++k;
    auto hex = [&](const string& s) { return k < s.size() ? str((uint64_t)(uint8_t)s[k]) : string("-"); };
    fail(string("serialized ") + what + ": byte " + str((uint64_t)k) + " of " + str((uint64_t)a.size()) + " is " + hex(b) + " instead of " + hex(a) + " (" + str((uint64_t)b.size()) + " bytes)");
}
template<class Kit> void determined(Src& s, Ctx& c, size_t max)
{
    typedef typename Kit::type T;
    const bool slow = val::slow<Kit>::value;
    bool filled = !s.chance(1, 12);
    uint64_t seed = s.seed(), other = s.seed();
    const uint8_t first[] = {0x00, 0xFF, 0x01}, second[] = {0xA5, 0x5A, 0x80, 0xFF, 0x03, 0xC7};
    uint8_t a = first[s.u(2)], b = second[s.u(5)];
    if (a == b) b = 0x3C;
    string log = "memory of " + str((uint64_t)a);
    c.describe([&]() { return "content " + str(seed) + ", memory filled with " + str((uint64_t)a) + " and " + str((uint64_t)b); });
    std::unique_ptr<T> p;
    {
        Garbage g(a);
        val::Tape t(seed);
        p = val::make<Kit>(filled, t.s, max);
    }
    const string want = bytes(*p);
    val::Digest d;
    Kit::ask(*p, d);
    same(want, bytes(*p), "again after queries");
    auto check = [&](const T& x, const char* what) {
        same(want, bytes(x), what);
        val::Digest e;
        {
            Garbage g(b);
            Kit::ask(x, e);
        }
        if (e == d) return;
        size_t k = 0;
        while (k < d.size() and k < e.size() and d[k] == e[k]) ++k;
        fail(string(what) + ": answer " + str((uint64_t)k) + " of " + str((uint64_t)d.size()) + " differs (" + (k < e.size() ? str(e[k]) : "-") + ", " + (k < d.size() ? str(d[k]) : "-") + ")");
    };
    {
        std::unique_ptr<T> q;
        {
            Garbage g(b);
            val::Tape t(seed);
            q = val::make<Kit>(filled, t.s, max);
        }
        check(*q, "built in other memory");
        if (s.b()) {
            Garbage g(a);
            T r(*q);
            check(r, "copied");
        }
        if (s.b()) {
            Garbage g(a);
            T r(std::move(*q));
            check(r, "moved");
        }
    }
    if (s.b()) { // loaded
        std::stringstream io(want);
        Garbage g(b);
        val::Tape t(other);
        auto q = val::make<Kit>(!slow and s.b(), t.s, max);
        sdsl::load(*q, io);
        check(*q, "loaded");
    }
    if (s.chance(1, slow ? 4 : 2)) { // built inside of an object with another content
        Garbage g(b);
        val::Tape t(other);
        auto q = val::make<Kit>(true, t.s, max);
        val::Tape u(seed);
        val::rebuild<Kit>(*q, filled, u.s, max);
        check(*q, "built inside of another object");
    }
    c.nt(filled and d.size() > 3 and want.size() > 16);
}

// the intermediate files of a construction, and the index, from disk or memory
template<class Idx> void files(Src& s, Ctx& c, size_t max)
{
    const uint8_t W = index_is_byte<Idx>::value ? 8 : 0;
    auto t = index_text<Idx>(s, c, max, 16);
    if (t.size() < 2) t.resize(2, 7);
    byte_sa_algo_type algo = s.b() ? LIBDIVSUFSORT : SE_SAIS;
    if (s.chance(2, 3)) algo = LIBDIVSUFSORT;
    const uint8_t a = s.b() ? 0 : 0x11, b = s.b() ? 0xFF : 0xA6;
    string dir[2] = {s.b() ? "@" : scratch(), s.b() ? "@" : scratch()};
    std::map<string, string> want;
    for (int r = 0; r < 2; ++r) {
        cache_config cc(false, dir[r], "c33_" + std::to_string(r));
        string in = dir[r] + "/c33_input";
        Garbage g(r ? b : a);
        construct_config::byte_algo_sa = algo;
        Idx idx;
        {
            int_vector<W> v(t.size(), 0, W ? W : 17);
            for (size_t i = 0; i < t.size(); ++i) v[i] = t[i];
            if (W) store_to_plain_array<uint8_t>(v, in);
            else store_to_file(v, in);
        }
        construct(idx, in, cc, W ? 1 : 0);
        sdsl::remove(in);
        std::map<string, string> got;
        got["index"] = bytes(idx);
        for (auto& f : cc.file_map) {
            isfstream file(f.second, std::ios::binary | std::ios::in);
            if (file) {
                std::stringstream x;
                x << file.rdbuf();
                got["file " + f.first] = x.str();
            }
            file.close();
            sdsl::remove(f.second);
        }
        if (!r) want.swap(got);
        else {
            eq((uint64_t)got.size(), (uint64_t)want.size(), "number of intermediate files");
            for (auto& x : want) {
                if (!got.count(x.first)) fail("only one construction wrote " + x.first);
                same(x.second, got[x.first], x.first.c_str());
            }
        }
    }
    construct_config::byte_algo_sa = LIBDIVSUFSORT;
    c.nt(t.size() > 3 and want.size() > 3);
}
}
#if PART == 7
typedef csa_wt<wt_huff<>, 4, 8> cwb;
#define FILES(name, n, ...) TARGET(#name, n) { using namespace val; files<__VA_ARGS__>(s, c, 200); }
FILES(files_cst_sct3, 60, cst_sct3<cwb>)
FILES(files_cst_sada, 60, cst_sada<>)
FILES(files_cst_fully, 40, cst_fully<cwb, 4>)
FILES(files_csa_fuzzy, 100, csa_wt<wt_huff<>, 4, 4, FS, FI>)
FILES(files_csa_sada, 100, csa_sada<enc_vector<>, 4, 4, TS, TI>)
FILES(files_cst_int, 60, cst_sct3<cwi, lcp_dac<>>)
FILES(files_csa_sada_int, 100, csa_sada_int<>)
#else
#if PART == 4 or PART == 5
#define CASES 40
#elif PART == 2 or PART == 3
#define CASES 80
#elif PART == 1
#define CASES 120
#else
#define CASES 160
#endif
#define X(name, max, kit) TARGET(#name, CASES) { using namespace val; determined<UNPAREN kit>(s, c, max); }
VALUES(X)
#endif
