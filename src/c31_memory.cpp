// C31: the huge-page allocator hands out disjoint blocks that keep their contents; vectors and structures work in them;
// the memory monitor adds up. (mmap is wrapped by the linker: the region is ordinary memory between canaries.)
#include "values.hpp"
#include <sdsl/memory_management.hpp>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <map>
#include <thread>

namespace
{
// ---- the region given to the allocator: dirty memory, an unreadable page in front and behind
struct Region {
    uint8_t* map = nullptr;
    size_t map_len = 0;
    uint8_t* base = nullptr;
    size_t len = 0;
};
std::vector<Region> regions;
int huge_fails = 0; // that many requests for huge pages fail
const size_t PG = 4096;
uint8_t dirt(size_t i) { return (uint8_t)(0xA5 ^ (i * 37)); }
}
extern "C" void* __real_mmap(void*, size_t, int, int, int, off_t);
extern "C" void* __wrap_mmap(void* a, size_t len, int prot, int flags, int fd, off_t off)
{
    if (!(flags & MAP_HUGETLB)) return __real_mmap(a, len, prot, flags, fd, off);
    if (huge_fails > 0) {
        --huge_fails;
        errno = ENOMEM;
        return MAP_FAILED;
    }
    Region r;
    size_t pages = (len + PG - 1) / PG + 1; // one page at least partly behind the region, filled with dirt
    r.map_len = (pages + 2) * PG;
    r.map = (uint8_t*)__real_mmap(nullptr, r.map_len, PROT_NONE, MAP_ANONYMOUS | MAP_PRIVATE, -1, 0);
    if (r.map == MAP_FAILED) return MAP_FAILED;
    r.base = r.map + PG;
    r.len = len;
    mprotect(r.base, pages * PG, prot);
    if (pages <= 4096) for (size_t i = 0; i < pages * PG; ++i) r.base[i] = dirt(i);
    regions.push_back(r);
    return r.base;
}
namespace
{
#if PART == 0
uint8_t pat(uint64_t id, size_t i) { return (uint8_t)((id * 0x9E3779B97F4A7C15ULL) >> 56) + (uint8_t)(i * 131) + (uint8_t)(i >> 8); }
struct Block {
    size_t len;
    uint64_t id;
};
struct Heap {
    hugepage_allocator a;
    size_t at;
    std::map<uint8_t*, Block> live;
    uint64_t next = 1;
    Heap(size_t total) : at(regions.size())
    {
        a.init(total);
        if (regions.size() != at + 1) fail("init did not map a region");
    }
    ~Heap()
    {
        munmap(regions[at].map, regions[at].map_len);
        regions.pop_back();
    }
    Region& r() { return regions[at]; }
    void fill(uint8_t* p, size_t from)
    {
        Block& b = live[p];
        for (size_t i = from; i < b.len; ++i) p[i] = pat(b.id, i);
    }
    void check(const string& op)
    {
        for (auto& x : live)
            for (size_t i = 0; i < x.second.len; ++i)
                if (x.first[i] != pat(x.second.id, i))
                    fail(op + ": byte " + str((uint64_t)i) + " of the block of " + str((uint64_t)x.second.len) + " bytes at offset " + str((uint64_t)(x.first - r().base)) + " changed");
        size_t end = ((r().len + PG - 1) / PG + 1) * PG;
        for (size_t i = r().len; i < end; ++i)
            if (r().base[i] != dirt(i)) fail(op + ": memory behind the region was written (" + str((uint64_t)(i - r().len)) + " bytes behind it)");
    }
    // the block at p is inside of the region and apart from all others
    void place(const string& op, void* v, size_t len)
    {
        uint8_t* p = (uint8_t*)v;
        if (!p) fail(op + ": got no block");
        if (p < r().base or p + len > r().base + r().len) fail(op + ": the block is not inside of the region");
        if ((uint64_t)p % 8) fail(op + ": the block is not aligned");
        if (!a.in_address_space(p) or (len and !a.in_address_space(p + len - 1))) fail(op + ": the block is not in the address space");
        auto it = live.lower_bound(p);
        if (it != live.end() and it->first < p + std::max<size_t>(len, 1))
            fail(op + ": the block overlaps the block of " + str((uint64_t)it->second.len) + " bytes at " + str((uint64_t)(it->first - r().base)));
        if (it != live.begin()) {
            --it;
            if (it->first + it->second.len > p) fail(op + ": the block is inside of the block of " + str((uint64_t)it->second.len) + " bytes at " + str((uint64_t)(it->first - r().base)));
        }
    }
    // the longest stretch without a block
    size_t gap() const
    {
        const Region& g = regions[at];
        size_t best = 0;
        uint8_t* from = g.base;
        for (auto& x : live) {
            if (x.first > from) best = std::max<size_t>(best, x.first - from);
            from = x.first + x.second.len;
        }
        return std::max<size_t>(best, g.base + g.len - from);
    }
    // bookkeeping of the allocator: header, footer, alignment, parts too small for a block - on both sides
    bool must_fit(size_t len) const { return len < (size_t)1 << 40 and gap() >= len + 112; }
    void alloc(const string& op, size_t len)
    {
        bool must = must_fit(len);
        void* p;
        try {
            p = a.mm_alloc(len);
        } catch (const std::system_error&) {
            if (must) fail(op + ": refused, but there are " + str((uint64_t)gap()) + " bytes in a row");
            check(op + " (refused)");
            return;
        }
        place(op, p, len);
        live[(uint8_t*)p] = Block{len, next++};
        fill((uint8_t*)p, 0);
        check(op);
    }
    void free(const string& op, uint8_t* p)
    {
        live.erase(p);
        a.mm_free(p);
        check(op);
    }
    void realloc(const string& op, uint8_t* p, size_t len)
    {
        Block b = live[p];
        if (len == 0) {
            live.erase(p);
            if (a.mm_realloc(p, 0) != nullptr) fail(op + ": got a block");
            check(op);
            return;
        }
        bool must = must_fit(len) or len <= b.len;
        void* q;
        try {
            q = a.mm_realloc(p, len);
        } catch (const std::system_error&) {
            if (must) fail(op + ": refused, but there are " + str((uint64_t)gap()) + " bytes in a row");
            check(op + " (refused)");
            return;
        }
        live.erase(p);
        place(op, q, len);
        size_t keep = std::min(len, b.len);
        live[(uint8_t*)q] = Block{keep, b.id};
        check(op);
        live[(uint8_t*)q].len = len;
        fill((uint8_t*)q, keep);
        check(op);
    }
};
TARGET("heap", 4000)
{
    size_t total = s.chance(1, 4) ? 64 + 8 * s.u(60) : s.chance(1, 2) ? 512 + s.u(4096) : 4096 + 8 * s.u(3000);
    Heap h(total);
    Log log{c};
    log += "region of " + str((uint64_t)total) + " bytes;";
    size_t ops = 3 + s.len(120), big = 16 + s.u(total / 2);
    size_t moved = 0, n = 0, refused = 0;
    bool odd = s.b();
    auto size = [&]() -> size_t {
        size_t x;
        switch (s.pick({6, 4, 3, 1, 1})) {
            case 0: x = s.u(64); break;
            case 1: x = s.u(big); break;
            case 2: { // around what is free
                size_t g = h.gap();
                x = g - std::min<size_t>(g, s.u(160));
                break;
            }
            case 3: x = s.u(total + 64); break;
            default: // more than any region
                x = s.b() ? ~(size_t)0 - s.u(64) : (size_t)1 << (32 + s.u(31));
                return x - s.u(40);
        }
        return odd ? x : x / 8 * 8;
    };
    for (size_t o = 0; o < ops; ++o) {
        auto any = [&]() {
            auto it = h.live.begin();
            std::advance(it, s.u(h.live.size() - 1));
            return it->first;
        };
        size_t op = h.live.empty() ? 0 : s.pick({6, 6, 5, 1});
        if (op == 0 and s.chance(1, 20)) op = 4;
        string name;
        switch (op) {
            case 0: {
                size_t len = size();
                name = "alloc(" + str((uint64_t)len) + ")";
                log += " " + name;
                h.alloc(name, len);
                break;
            }
            case 1: {
                uint8_t* p = any();
                size_t old = h.live[p].len, len = s.chance(1, 3) ? old + s.u(48) - std::min<size_t>(old, s.u(24)) : size();
                if (!odd) len = len / 8 * 8;
                name = "realloc(" + str((uint64_t)(p - h.r().base)) + ": " + str((uint64_t)old) + "->" + str((uint64_t)len) + ")";
                log += " " + name;
                h.realloc(name, p, len);
                ++moved;
                break;
            }
            case 2: {
                uint8_t* p = any();
                name = "free(" + str((uint64_t)(p - h.r().base)) + ": " + str((uint64_t)h.live[p].len) + ")";
                log += " " + name;
                h.free(name, p);
                break;
            }
            case 3:
                if (s.b()) {
                    log += " free(nullptr)";
                    h.a.mm_free(nullptr);
                } else {
                    size_t len = s.u(64), k = h.live.size();
                    if (!odd) len = len / 8 * 8;
                    name = "realloc(nullptr," + str((uint64_t)len) + ")";
                    log += " " + name;
                    bool must = h.must_fit(len);
                    try {
                        void* p = h.a.mm_realloc(nullptr, len);
                        h.place(name, p, len);
                        h.live[(uint8_t*)p] = Block{len, h.next++};
                        h.fill((uint8_t*)p, 0);
                        eq((uint64_t)h.live.size(), (uint64_t)k + 1, "number of blocks");
                    } catch (const std::system_error&) {
                        if (must) fail(name + ": refused");
                    }
                    h.check(name);
                }
                break;
            default: { // everything is freed, in any order: the whole region is free again
                log += " free all";
                while (!h.live.empty()) h.free("free all", any());
                if (total >= 200) {
                    size_t len = (total - 112) / 8 * 8;
                    h.alloc("alloc(" + str((uint64_t)len) + ") in the empty region", len);
                    h.free("free of all", any());
                }
            }
        }
        n = std::max(n, h.live.size());
        (void)refused;
    }
    req(!h.a.in_address_space(&h), "in_address_space of a foreign object");
    c.nt(n > 2 and ops > 5 and moved > 0);
    if (n > 8) c.label("more than eight blocks");
}

// ---- integer vectors inside of huge pages
struct Vec {
    int_vector<> v;
    std::vector<uint64_t> want;
};
uint64_t low(uint64_t x, uint8_t w) { return w == 64 ? x : x & ((1ULL << w) - 1); }
const size_t HUGE_BYTES = 3 << 20;
void huge_pages()
{
    static bool done = false;
    if (done) return;
    done = true;
    // vectors from before are resized and freed as before
    huge_fails = 1;
    bool refused = false;
    try {
        memory_manager::use_hugepages(HUGE_BYTES);
    } catch (const std::system_error&) {
        refused = true;
    }
    if (!refused) fail("use_hugepages without huge pages did not report it");
    int_vector<> a(100, 5, 7), b(1000, 77, 13), e;
    a.resize(300);
    memory_manager::use_hugepages(HUGE_BYTES);
    for (size_t i = 0; i < 100; ++i) eq(a[i], 5, "element from before huge pages were used");
    a.resize(5000);
    for (size_t i = 0; i < 100; ++i) eq(a[i], 5, "element from before huge pages were used");
    e = b;
    b.resize(0);
    a.swap(e);
    for (size_t i = 0; i < 1000; ++i) eq(a[i], 77, "element of the vector copied into huge pages");
}
TARGET("huge_vectors", 1500)
{
    huge_pages();
    Log log{c};
    vector<Vec> x(4);
    size_t refused = 0, most = 0, ops = 3 + s.len(60);
    for (auto& y : x) {
        uint8_t w = 1 + s.u(63);
        y.v.width(w);
    }
    auto same = [&](const string& op) {
        for (size_t k = 0; k < x.size(); ++k) {
            if (x[k].v.size() != x[k].want.size()) fail(op + ": vector " + str((uint64_t)k) + " has " + str((uint64_t)x[k].v.size()) + " elements instead of " + str((uint64_t)x[k].want.size()));
            for (size_t i = 0; i < x[k].want.size(); ++i)
                if (x[k].v[i] != x[k].want[i]) fail(op + ": element " + str((uint64_t)i) + " of vector " + str((uint64_t)k) + " is " + str((uint64_t)x[k].v[i]) + " instead of " + str(x[k].want[i]));
        }
    };
    for (size_t o = 0; o < ops; ++o) {
        size_t i = s.u(3), j = s.u(3);
        Vec& a = x[i];
        uint8_t w = a.v.width();
        string name;
        try {
            switch (s.pick({6, 3, 2, 2, 2, 2, 1, 2})) {
                case 0: {
                    size_t n = s.chance(1, 30) ? (size_t)1 << (30 + s.u(24)) : s.len(4000), old = a.v.size();
                    name = "resize(" + str((uint64_t)i) + "," + str((uint64_t)n) + ")";
                    log += " " + name;
                    a.v.resize(n);
                    a.want.resize(n);
                    for (size_t k = old; k < n; ++k) a.v[k] = a.want[k] = low(k * 0x9E3779B97F4A7C15ULL, w);
                    break;
                }
                case 1: {
                    size_t n = s.len(4000);
                    uint8_t nw = 1 + s.u(63);
                    name = "new(" + str((uint64_t)i) + "," + str((uint64_t)n) + "," + str((uint64_t)nw) + ")";
                    log += " " + name;
                    uint64_t d = low(s.seed(), nw);
                    int_vector<> v(n, d, nw);
                    a.v = std::move(v);
                    a.want.assign(n, d);
                    break;
                }
                case 2:
                    name = "copy(" + str((uint64_t)i) + "," + str((uint64_t)j) + ")";
                    log += " " + name;
                    a.v = x[j].v;
                    a.want = x[j].want;
                    break;
                case 3:
                    name = "swap(" + str((uint64_t)i) + "," + str((uint64_t)j) + ")";
                    log += " " + name;
                    a.v.swap(x[j].v);
                    std::swap(a.want, x[j].want);
                    break;
                case 4: {
                    name = "move(" + str((uint64_t)i) + "," + str((uint64_t)j) + ")";
                    log += " " + name;
                    int_vector<> t(std::move(x[j].v));
                    std::vector<uint64_t> u(std::move(x[j].want));
                    x[j].want.clear();
                    x[j].v = int_vector<>(0, 0, 9);
                    x[i].v = std::move(t);
                    x[i].want = u;
                    break;
                }
                case 5: {
                    name = "store and load(" + str((uint64_t)i) + "," + str((uint64_t)j) + ")";
                    log += " " + name;
                    std::stringstream io;
                    x[j].v.serialize(io);
                    a.v.load(io);
                    a.want = x[j].want;
                    break;
                }
                case 6: {
                    name = "compress(" + str((uint64_t)i) + ")";
                    log += " " + name;
                    util::bit_compress(a.v);
                    break;
                }
                default: {
                    if (a.want.empty()) break;
                    size_t k = s.pos(a.want.size() - 1);
                    a.v[k] = a.want[k] = low(s.seed(), w);
                }
            }
        } catch (const std::exception& e) { // more than the region has: everything stays as it was
            size_t bytes = 0;
            for (auto& y : x) bytes += y.v.size() * 8;
            if (name.find("resize") != 0 or std::stoull(name.substr(name.find(',') + 1)) < 5000) fail(name + " with " + str((uint64_t)bytes) + " bytes in use: " + e.what());
            name += " (refused)";
            ++refused;
        }
        same(name);
        size_t all = 0;
        for (auto& y : x) all += y.want.size();
        most = std::max(most, all);
    }
    c.nt(most > 10 and ops > 5);
    if (refused) c.label("refused");
}
#endif

// ---- the log of the monitor
struct Event {
    string name;
    vector<std::pair<int64_t, int64_t>> points;
};
struct LogParser {
    const string& s;
    size_t i = 0;
    LogParser(const string& t) : s(t) {}
    void bad(const string& what) { fail("log: " + what + " at " + str((uint64_t)i) + ": ..." + s.substr(i > 60 ? i - 60 : 0, 120)); }
    char peek()
    {
        while (i < s.size() and (s[i] == ' ' or s[i] == '\t' or s[i] == '\n' or s[i] == '\r')) ++i;
        return i < s.size() ? s[i] : 0;
    }
    void want(char c)
    {
        if (peek() != c) bad(string("expected ") + c);
        ++i;
    }
    string text()
    {
        want('"');
        string r;
        while (i < s.size() and s[i] != '"') {
            if ((unsigned char)s[i] < 32) bad("control character");
            if (s[i] == '\\') {
                ++i;
                if (i >= s.size()) bad("end");
                switch (s[i]) {
                    case '"': case '\\': case '/': r += s[i]; break;
                    case 'n': r += '\n'; break;
                    case 't': r += '\t'; break;
                    case 'r': r += '\r'; break;
                    case 'b': r += '\b'; break;
                    case 'f': r += '\f'; break;
                    case 'u': {
                        if (i + 4 >= s.size()) bad("end");
                        r += (char)std::stoul(s.substr(i + 1, 4), nullptr, 16);
                        i += 4;
                        break;
                    }
                    default: bad("escape sequence");
                }
                ++i;
            } else r += s[i++];
        }
        want('"');
        return r;
    }
    int64_t number()
    {
        string v;
        if (peek() == '-') v += s[i++];
        while (i < s.size() and isdigit((unsigned char)s[i])) v += s[i++];
        if (v.empty() or v == "-") bad("number");
        return std::stoll(v);
    }
    vector<Event> all()
    {
        vector<Event> r;
        want('[');
        if (peek() != ']') do {
                Event e;
                want('{');
                bool name = false, usage = false;
                do {
                    string key = text();
                    want(':');
                    if (key == "name" and !name) {
                        e.name = text();
                        name = true;
                    } else if (key == "usage" and !usage) {
                        usage = true;
                        want('[');
                        if (peek() != ']') do {
                                want('[');
                                int64_t t = number();
                                want(',');
                                e.points.push_back({t, number()});
                                want(']');
                            } while (peek() == ',' and ++i);
                        want(']');
                    } else bad("key " + key);
                } while (peek() == ',' and ++i);
                want('}');
                if (!name or !usage) bad("incomplete event");
                r.push_back(e);
            } while (peek() == ',' and ++i);
        want(']');
        if (peek() != 0) bad("something behind the log");
        return r;
    }
};
vector<Event> log_of()
{
    std::stringstream o;
    memory_monitor::write_memory_log<JSON_FORMAT>(o);
    string t = o.str();
    return LogParser(t).all();
}
const Event& named(const vector<Event>& v, const string& name)
{
    const Event* r = nullptr;
    for (auto& e : v)
        if (e.name == name) {
            if (r) fail("the event " + name + " is logged twice");
            r = &e;
        }
    if (!r) fail("the event " + name + " is not logged");
    return *r;
}
template<class V> int64_t bytes_of(const V& v) { return (int64_t)((v.bit_size() + 63) / 64 * 8); }
typedef std::chrono::milliseconds ms;
const ms EVERY(-3600000); // every change makes its own entry

#if PART == 1
TARGET("monitor", 1500)
{
    Log log{c};
    vector<int_vector<>> x(3);
    vector<bit_vector> y(2);
    for (auto& v : x) v.width(1 + s.u(63));
    static const char* word[] = {"a", "b", "construct wavelet tree", "", "a \"quoted\" name", "back\\slash", "two\nlines", "tab\tand \x01"};
    bool exact = s.chance(2, 3);
    memory_monitor::granularity(exact ? EVERY : ms(s.b() ? 0 : s.b() ? 20 : 3600000));
    auto live = [&]() {
        int64_t u = 0;
        for (auto& v : x) u += bytes_of(v);
        for (auto& v : y) u += bytes_of(v);
        return u;
    };
    auto change = [&](size_t k) {
        size_t i = s.u(2), j = s.u(2);
        switch (k) {
            case 0: x[i].resize(s.len(3000)); log += " resize"; break;
            case 1: x[i] = int_vector<>(s.len(3000), 1, 1 + s.u(63)); log += " assign new"; break;
            case 2: x[i] = x[j]; log += " copy"; break;
            case 3: x[i].swap(x[j]); log += " swap"; break;
            case 4: {
                int_vector<> t(std::move(x[i]));
                log += " move";
                x[j] = std::move(t);
                break;
            }
            case 5: y[i & 1] = bit_vector(s.len(3000), 0); log += " bit_vector"; break;
            case 6: {
                std::stringstream o;
                x[i].serialize(o);
                x[j].load(o);
                log += " load";
                break;
            }
            case 7: y[i & 1].bit_resize(s.len(3000)); log += " bit_resize"; break;
            case 8: util::bit_compress(x[i]); log += " bit_compress"; break;
            case 9: util::expand_width(x[i], std::min<unsigned>(64, x[i].width() + s.u(9))); log += " expand_width"; break;
            case 10: x[i].resize(x[i].size()); log += " same size"; break;
            case 11: util::clear(x[i]); log += " clear"; break;
            case 12:
                try {
                    log += " too large";
                    x[i].resize((size_t)1 << 50);
                    fail("2^50 elements were allocated");
                } catch (const std::bad_alloc&) {
                }
                break;
            default: {
                int_vector<64> t;
                for (size_t n = s.len(400), k = 0; k < n; ++k) t.resize(k + 1);
                log += " growing";
            }
        }
    };
    for (size_t n = s.u(3); n--;) change(s.u(12)); // from before
    size_t starts = 0, rounds = 1 + s.u(2), changes = 0, events = 0;
    bool ended = false;
    for (size_t round = 0; round < rounds; ++round) {
        struct Ended {
            string name;
            int64_t first, last, max;
        };
        vector<Ended> want;
        memory_monitor::start();
        ++starts;
        log += " start";
        int64_t zero = live(), max = 0;
        size_t in_round = 0, marks = 0;
        auto now = [&]() { return live() - zero; };
        std::function<void(size_t)> body = [&](size_t depth) {
            for (size_t n = s.u(8); n--;) {
                if (depth < 3 and s.chance(1, 4)) {
                    Ended e;
                    e.name = string(word[s.u(7)]) + " " + str((uint64_t)round) + "." + str((uint64_t)marks++);
                    e.first = now();
                    log += " {" + e.name;
                    {
                        auto event = memory_monitor::event(e.name);
                        body(depth + 1);
                    }
                    log += " }";
                    e.last = now();
                    want.push_back(e);
                    ++events;
                } else {
                    change(s.u(13));
                    ++in_round;
                    max = std::max(max, now());
                }
            }
        };
        // the largest usage during one operation is not seen from outside: bound it by old and new together
        body(0);
        int64_t end = now();
        { auto event = memory_monitor::event("the end"); }
        if (s.chance(1, 6)) { // the log ends or starts again before the event does
            ended = true;
            log += " {stop}";
            auto event = memory_monitor::event("unfinished");
            memory_monitor::stop();
            if (s.b()) {
                memory_monitor::start();
                zero = live();
                want.clear();
                max = 0;
                in_round = 0;
                log += " start";
                end = 0;
                if (s.b()) {
                    change(s.u(11));
                    in_round = 1;
                    max = std::max<int64_t>(0, now());
                    end = now();
                }
                auto e2 = memory_monitor::event("the end");
            }
        }
        change(s.u(3)); // what happens to it after the end is not of interest
        memory_monitor::stop();
        log += " stop";
        change(s.u(12));
        auto v = log_of();
        if (log_of().size() != v.size()) fail("the log changed by writing it");
        int64_t logged = 0;
        for (auto& e : v) {
            if (e.points.empty()) fail("event " + e.name + " has no entry");
            for (auto& p : e.points) logged = std::max(logged, p.second);
        }
        eq((uint64_t)memory_monitor::peak(), (uint64_t)logged, "peak() against the log");
        for (auto& w : want) {
            auto& e = named(v, w.name);
            if (exact and e.points.front().second != w.first) fail("event " + w.name + " starts with " + std::to_string(e.points.front().second) + " bytes instead of " + std::to_string(w.first));
            if (e.points.back().second != w.last) fail("event " + w.name + " ends with " + std::to_string(e.points.back().second) + " bytes instead of " + std::to_string(w.last));
        }
        auto& e = named(v, "the end");
        if (e.points.back().second != end) fail("usage at the end is " + std::to_string(e.points.back().second) + " bytes instead of " + std::to_string(end));
        named(v, "unknown");
        if (exact and logged < max) fail("peak is " + std::to_string(logged) + " bytes, but " + std::to_string(max) + " were in use");
        changes += in_round;
        std::stringstream h;
        memory_monitor::write_memory_log<HTML_FORMAT>(h);
        string t = h.str();
        size_t p = t.find("var events = ");
        if (p == string::npos or t.find("</html>") == string::npos) fail("HTML log");
    }
    // nothing is logged without start
    auto a = log_of();
    {
        auto event = memory_monitor::event("not logged");
        change(s.u(11));
    }
    if (log_of().size() != a.size()) fail("logged after the end");
    c.nt(changes > 2);
    if (events) c.label("events");
    if (ended) c.label("log ended inside of an event");
}
// the largest usage, measured by what a single vector does
TARGET("peak", 1500)
{
    Log log{c};
    bool exact = !s.chance(1, 5);
    memory_monitor::granularity(exact ? EVERY : ms(s.b() ? 0 : 20));
    memory_monitor::start();
    int64_t now = 0, peak = 0;
    size_t n = 1 + s.len(30);
    {
        vector<std::unique_ptr<int_vector<64>>> v;
        vector<size_t> len;
        for (size_t k = 0; k < n; ++k) {
            if (v.empty() or s.chance(2, 5)) {
                size_t m = s.len(2000);
                log += " new " + str((uint64_t)m);
                v.emplace_back(new int_vector<64>(m));
                len.push_back(m);
                now += m * 8;
            } else {
                size_t i = s.u(v.size() - 1);
                now -= len[i] * 8;
                if (s.b()) {
                    log += " delete " + str((uint64_t)len[i]);
                    v.erase(v.begin() + i);
                    len.erase(len.begin() + i);
                } else {
                    size_t m = s.len(2000);
                    log += " resize " + str((uint64_t)len[i]) + "->" + str((uint64_t)m);
                    v[i]->resize(m);
                    len[i] = m;
                    now += m * 8;
                }
            }
            peak = std::max(peak, now);
        }
    }
    memory_monitor::stop();
    if (exact) eq((uint64_t)memory_monitor::peak(), (uint64_t)peak, "peak");
    else if (memory_monitor::peak() > peak) fail("peak is " + std::to_string(memory_monitor::peak()) + " bytes, only " + std::to_string(peak) + " were in use");
    auto v = log_of();
    auto& e = named(v, "unknown");
    eq((uint64_t)e.points.back().second, 0, "bytes in use after all vectors were destroyed");
    c.nt(n > 2);
}
// vectors of several threads at once
TARGET("threads", 150)
{
    Log log{c};
    memory_monitor::granularity(s.b() ? EVERY : ms(0));
    size_t k = 2 + s.u(3);
    log += str((uint64_t)k) + " threads";
    vector<uint64_t> seed(k);
    for (auto& x : seed) x = s.seed();
    vector<vector<int_vector<>>> v(k, vector<int_vector<>>(3));
    vector<int64_t> most(k, 0);
    memory_monitor::start();
    {
        auto event = memory_monitor::event("threads");
        vector<std::thread> t;
        for (size_t i = 0; i < k; ++i) t.emplace_back([&, i]() {
                Rng r{seed[i]};
                for (int o = 0; o < 200; ++o) {
                    auto& x = v[i][r.below(3)];
                    switch (r.below(4)) {
                        case 0: x.resize(r.below(500)); break;
                        case 1: x = int_vector<>(r.below(500), 3, 1 + r.below(64)); break;
                        case 2: x = v[i][r.below(3)]; break;
                        default: x.swap(v[i][r.below(3)]);
                    }
                    int64_t u = 0;
                    for (auto& y : v[i]) u += bytes_of(y);
                    most[i] = std::max(most[i], u);
                }
            });
        for (auto& x : t) x.join();
    }
    int64_t end = 0, all = 0;
    for (size_t i = 0; i < k; ++i) {
        for (auto& y : v[i]) end += bytes_of(y);
        all = std::max(all, most[i]);
    }
    memory_monitor::stop();
    auto l = log_of();
    auto& e = named(l, "threads");
    if (e.points.back().second != end) fail("usage after the threads is " + std::to_string(e.points.back().second) + " bytes instead of " + std::to_string(end));
    if (memory_monitor::peak() < end) fail("peak is smaller than the usage at the end");
    (void)all;
    c.nt(true);
}
#elif PART == 2
// ---- structures: built in huge pages they answer as elsewhere; the monitor sees all of their vectors
template<class Kit> void run(Src& s, Ctx& c, size_t max)
{
    typedef typename Kit::type T;
    uint64_t seed = s.seed();
    val::Digest want, got;
    memory_monitor::granularity(EVERY);
    {   // tables made at the first use are not counted
        val::Tape t(seed);
        std::unique_ptr<T> p = val::make<Kit>(true, t.s, max);
        c.describe([&]() { return "an object of " + str((uint64_t)size_in_bytes(*p)) + " bytes"; });
        Kit::ask(*p, want);
    }
    memory_monitor::start();
    int64_t size;
    {
        val::Tape t(seed);
        std::unique_ptr<T> p = val::make<Kit>(true, t.s, max);
        { auto e = memory_monitor::event("!built"); }
        {
            std::unique_ptr<T> q(new T(*p));
            { auto e = memory_monitor::event("!copied"); }
            T r(std::move(*q));
            { auto e = memory_monitor::event("!moved"); }
            q.reset();
            { auto e = memory_monitor::event("!source gone"); }
            std::stringstream io;
            sdsl::serialize(r, io);
            sdsl::load(*p, io);
            { auto e = memory_monitor::event("!reloaded"); }
        }
        { auto e = memory_monitor::event("!copy gone"); }
        size = size_in_bytes(*p);
    }
    { auto e = memory_monitor::event("!gone"); }
    memory_monitor::stop();
    auto v = log_of();
    auto at = [&](const char* n) { return named(v, n).points.back().second; };
    int64_t one = at("!built"), two = at("!copied");
    auto is = [&](const char* n, int64_t w) {
        if (at(n) != w) fail(string("usage at '") + (n + 1) + "' is " + std::to_string(at(n)) + " bytes instead of " + std::to_string(w) + " (one object: " + std::to_string(one) + ")");
    };
    if (one > size + 8) fail("the vectors of the structure have " + std::to_string(one) + " bytes, the structure " + std::to_string(size));
    is("!copied", 2 * one);
    if (at("!moved") < two) is("!moved", two); // the source may have got something new
    is("!source gone", two);
    is("!reloaded", two);
    is("!copy gone", one);
    is("!gone", 0);
    if (memory_monitor::peak() < two) fail("peak");
    // the same in dirty memory
    int fd[2];
    if (pipe(fd)) fail("pipe");
    pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        FILE* o = fdopen(fd[1], "w");
        try {
            memory_manager::use_hugepages(24 << 20);
            for (int round = 0; round < 2; ++round) { // the second time the memory has been used before
                val::Tape t(seed);
                std::unique_ptr<T> p = val::make<Kit>(true, t.s, max);
                val::Digest d;
                T q(*p);
                p.reset();
                Kit::ask(q, d);
                if (d != want) {
                    size_t k = 0;
                    while (k < d.size() and k < want.size() and d[k] == want[k]) ++k;
                    fprintf(o, "built in huge pages it answers differently (answer %zu of %zu, %zu given, round %d)", k, want.size(), d.size(), round);
                    fflush(o);
                    _exit(1);
                }
            }
        } catch (const Fail& f) {
            fprintf(o, "in huge pages: %s", f.msg.c_str());
            fflush(o);
            _exit(1);
        } catch (const std::exception& e) {
            fprintf(o, "in huge pages: %s", e.what());
            fflush(o);
            _exit(1);
        }
        fflush(o);
        _exit(0);
    }
    close(fd[1]);
    string out;
    char buf[500];
    for (ssize_t n; (n = read(fd[0], buf, sizeof buf)) > 0;) out.append(buf, n);
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    if (!out.empty()) fail(out);
    if (!WIFEXITED(st) or WEXITSTATUS(st)) fail("in huge pages: the process ended with status " + str((uint64_t)st));
    c.nt(one > 64 and want.size() > 3);
}
#define K31(name, cases, max, kit) \
    TARGET(name, cases) { using namespace val; run<UNPAREN kit>(s, c, max); }
K31("int_vector", 60, 1000, (kit_iv<int_vector<>>))
K31("bit_vector_supports", 60, 1000, (kit_bitvector))
K31("il", 60, 1500, (kit_enc<bit_vector_il<>>))
K31("rrr", 60, 700, (kit_enc<rrr_vector<63>>))
K31("sd", 60, 1000, (kit_enc<sd_vector<>>))
K31("hyb", 60, 1500, (kit_encns<hyb_vector<16>>))
K31("enc", 60, 500, (kit_civ<enc_vector<>>))
K31("vlc", 60, 500, (kit_civ<vlc_vector<>>))
K31("dac", 60, 500, (kit_civ<dac_vector<>>))
K31("dac_dp", 60, 300, (kit_civ<dac_vector_dp<>>))
K31("wt_huff", 40, 400, (kit_wt<wt_huff<>>))
K31("wt_int", 40, 400, (kit_wt<wt_int<>>))
K31("wm_int", 40, 400, (kit_wt<wm_int<>>))
K31("wt_rlmn", 40, 400, (kit_wt<wt_rlmn<>>))
K31("wt_ap", 40, 300, (kit_wt<wt_ap<>>))
K31("wt_gmr", 40, 300, (kit_wt<wt_gmr<>>))
K31("csa_wt", 25, 120, (kit_csa<csa_wt<>>))
K31("csa_sada", 25, 120, (kit_csa<csa_sada<>>))
K31("csa_bitcompressed", 25, 120, (kit_csa<csa_bitcompressed<>>))
K31("csa_wt_int", 25, 120, (kit_csa<csa_wt_int<>>))
K31("lcp_wt", 25, 300, (kit_lcp<lcp_wt<>>))
K31("lcp_byte", 25, 600, (kit_lcp<lcp_byte<>>))
K31("cst_sct3", 12, 100, (kit_cst<cst_sct3<>>))
K31("cst_sada", 12, 100, (kit_cst<cst_sada<>>))
K31("cst_fully", 12, 60, (kit_cst<cst_fully<cw, 4>>))
K31("bp_sada", 60, 1500, (kit_bp<bp_support_sada<>>))
K31("bp_gg", 60, 1500, (kit_bp<bp_support_gg<>>))
K31("rmq_sct", 40, 300, (kit_rmq<rmq_succinct_sct<>>))
K31("rmq_table", 40, 300, (kit_rmq_table<rmq_support_sparse_table<>>))
K31("k2_treap", 40, 200, (kit_k2treap<k2_treap<2, rrr_vector<63>>>))
K31("k2_tree", 40, 200, (kit_k2tree<k2_tree<2>>))
K31("nnd", 40, 600, (kit_nnd<30>))
K31("nn_dynamic", 40, 300, (kit_nndyn))
K31("inv_perm", 40, 300, (kit_inv<inv_perm_support<>>))
K31("stack", 40, 200, (kit_stack<sorted_stack_support>))
K31("louds", 40, 60, (kit_louds<louds_tree<>>))
#endif
}
