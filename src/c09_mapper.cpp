// C09: a memory-mapped integer vector mirrors its file. Histories over several mapped files against a string of bits.
#include "pbt.hpp"
#include "gen.hpp"
#include <sdsl/vectors.hpp>
#include <sdsl/int_vector_mapper.hpp>
#include <sdsl/util.hpp>
#include <sdsl/io.hpp>
#include <dirent.h>
#include <sys/stat.h>
#include <memory>
#include <set>
#include <unistd.h>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

namespace
{
string slurp(const string& f)
{
    std::ifstream in(f, std::ios::binary);
    return string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
void spit(const string& f, const string& b)
{
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o.write(b.data(), b.size());
}
bool there(const string& f) { return ::access(f.c_str(), F_OK) == 0; }
std::set<string> entries(const string& dir)
{
    std::set<string> r;
    DIR* d = opendir(dir.c_str());
    while (dirent* e = readdir(d)) r.insert(e->d_name);
    closedir(d);
    return r;
}
// the array: bits, cut into elements of w bits
struct Model {
    vector<bool> bits;
    uint8_t w = 64;
    bool plain = false;
    size_t size() const { return bits.size() / w; }
    uint64_t get(size_t pos, uint8_t len) const
    {
        uint64_t x = 0;
        for (uint8_t k = 0; k < len; ++k) x |= (uint64_t)bits[pos + k] << k;
        return x;
    }
    void set(size_t pos, uint64_t x, uint8_t len)
    {
        for (uint8_t k = 0; k < len; ++k) bits[pos + k] = x >> k & 1;
    }
    uint64_t at(size_t i) const { return get(i * w, w); }
    void put(size_t i, uint64_t x) { set(i * w, x, w); }
};
uint64_t mask(uint64_t x, uint8_t w) { return w == 64 ? x : x & ((1ULL << w) - 1); }
string le(uint64_t x, size_t n)
{
    string b;
    while (n--) b += (char)x, x >>= 8;
    return b;
}
template<uint8_t W> size_t header(const Model& m) { return m.plain ? 0 : W ? 8 : 9; }
template<uint8_t W> string image(const Model& m)
{
    string b((m.bits.size() + 7) / 8, 0);
    for (size_t i = 0; i < m.bits.size(); ++i)
        if (m.bits[i]) b[i / 8] |= (char)(1 << (i % 8));
    if (m.plain) return b;
    b.resize((b.size() + 7) / 8 * 8, 0);
    return le(m.bits.size(), 8) + (W ? "" : le(m.w, 1)) + b;
}
// The file against the model: header, length and all bits of the array; bits behind the array are free.
template<uint8_t W> void file_is(const string& name, const Model& m)
{
    if (!there(name)) fail("the file is gone");
    string got = slurp(name), want = image<W>(m);
    if (got.size() != want.size()) fail("file of " + str((uint64_t)got.size()) + " bytes instead of " + str((uint64_t)want.size()) + " (" + str((uint64_t)m.size()) + " elements of " + str((uint64_t)m.w) + " bits)");
    size_t h = header<W>(m);
    if (got.compare(0, h, want, 0, h) != 0) fail("header of the file");
    for (size_t i = 0; i < m.bits.size(); ++i)
        if ((got[h + i / 8] >> (i % 8) & 1) != (int)m.bits[i]) fail("bit " + str((uint64_t)i) + " of " + str((uint64_t)m.bits.size()) + " in the file");
    if (!m.plain) {
        int_vector<W> v;
        req(load_from_file(v, name), "load_from_file");
        if (v.size() != m.size() or v.width() != m.w) fail("loaded vector has another size or width");
        for (size_t i = 0; i < v.size(); ++i)
            if (v[i] != m.at(i)) fail("element " + str((uint64_t)i) + " of the loaded vector");
    }
}
template<uint8_t W> uint8_t limb() { return W == 1 ? 1 : W == 8 or W == 16 or W == 32 ? W : 64; } // bits get_int carries
typedef std::ios_base ib;

// everything that can be read through a mapping
template<uint8_t W, class M> void reads(const M& x, const Model& m, const string& name, Rng& r, bool full)
{
    eq((uint64_t)x.size(), (uint64_t)m.size(), "size()");
    eq((uint64_t)x.bit_size(), (uint64_t)m.bits.size(), "bit_size()");
    eq((uint64_t)x.width(), (uint64_t)m.w, "width()");
    eq(x.empty(), m.bits.empty(), "empty()");
    req(x.capacity() >= x.size(), "capacity() >= size()");
    req(x.file_name() == name, "file_name()");
    size_t n = m.size();
    if (n == 0) {
        req(x.begin() == x.end() and x.cbegin() == x.cend(), "begin() == end()");
        return;
    }
    for (int k = 0; k < 4; ++k) {
        size_t i = k == 0 ? n - 1 : r.below(n);
        if ((uint64_t)x[i] != m.at(i)) fail("[" + str((uint64_t)i) + "] is " + str((uint64_t)x[i]) + " instead of " + str(m.at(i)));
        uint8_t len = 1 + r.below(std::min<size_t>(limb<W>(), m.bits.size()));
        size_t p = r.below(m.bits.size() - len + 1);
        if ((uint64_t)x.get_int(p, len) != m.get(p, len)) fail("get_int(" + str((uint64_t)p) + "," + str((uint64_t)len) + ") is " + str((uint64_t)x.get_int(p, len)) + " instead of " + str(m.get(p, len)));
        if ((uint64_t) * (x.begin() + i) != m.at(i)) fail("*(begin()+" + str((uint64_t)i) + ")");
        if ((uint64_t) * (x.cend() - (n - i)) != m.at(i)) fail("*(cend()-" + str((uint64_t)(n - i)) + ")");
    }
    if (!full) return;
    eq((uint64_t)(x.end() - x.begin()), (uint64_t)n, "end()-begin()");
    size_t i = 0;
    for (auto it = x.cbegin(); it != x.cend(); ++it, ++i)
        if ((uint64_t)*it != m.at(i)) fail("iteration at " + str((uint64_t)i) + ": got " + str((uint64_t)*it) + " want " + str(m.at(i)));
    eq((uint64_t)i, (uint64_t)n, "iterated elements");
    for (size_t k = 0; k < n; ++k)
        if ((uint64_t)x[k] != m.at(k)) fail("[" + str((uint64_t)k) + "] is " + str((uint64_t)x[k]) + " instead of " + str(m.at(k)));
    const uint64_t* d = x.data();
    for (size_t b = 0; b < m.bits.size(); b += 8) {
        uint8_t byte = ((const uint8_t*)d)[b / 8];
        for (size_t k = b; k < std::min(b + 8, m.bits.size()); ++k)
            if ((byte >> (k - b) & 1) != (int)m.bits[k]) fail("bit " + str((uint64_t)k) + " of data()");
    }
}
// == and != with the same array, a changed one, a shorter one and a longer one, in other containers
template<uint8_t W, class M> void compares(const M& x, const Model& m, Rng& r)
{
    int_vector<W> v(m.size(), 0, m.w);
    vector<uint64_t> u(m.size());
    for (size_t i = 0; i < m.size(); ++i) v[i] = u[i] = m.at(i);
    req(x == u and !(x != u), "== of the mapping and a std::vector with its elements");
    if (m.bits.size() == m.size() * m.w) req(x == v and !(x != v), "== of the mapping and an int_vector with its elements");
    req(x == x, "== of the mapping and itself");
    vector<uint64_t> other = u;
    switch (r.below(3)) {
        case 0: other.push_back(0); break;
        case 1:
            if (other.empty()) return;
            other.pop_back();
            break;
        default:
            if (other.empty()) return;
            other[r.below(other.size())] ^= 1ULL << r.below(m.w);
    }
    req(!(x == other) and x != other, "== of the mapping and a std::vector with other elements");
    int_vector<W> ov(other.size(), 0, m.w);
    for (size_t i = 0; i < other.size(); ++i) ov[i] = other[i];
    req(!(x == ov) and x != ov, "== of the mapping and an int_vector with other elements");
}

template<uint8_t W> struct Slot {
    std::unique_ptr<int_vector_mapper<W>> x;
    int file = -1;
    bool gone = false; // delete when closed
};
template<bool> struct Flip {
    template<class M> static void run(M&) {}
};
template<> struct Flip<true> {
    template<class M> static void run(M& x) { x.flip(); }
};
template<bool> struct Compress {
    template<class M> static void run(M&, Model&) {}
    template<class M> static void width(M&, Model&, uint8_t) {}
};
template<> struct Compress<true> {
    template<class M> static void run(M& x, Model& m)
    {
        util::bit_compress(x);
        uint64_t max = 0;
        for (size_t i = 0; i < m.size(); ++i) max = std::max(max, m.at(i));
        uint8_t need = max ? 64 - __builtin_clzll(max) : 1;
        if (need >= m.w) return;
        Model n = m;
        n.w = need;
        n.bits.assign(m.size() * need, false);
        for (size_t i = 0; i < m.size(); ++i) n.put(i, m.at(i));
        m = n;
    }
    template<class M> static void width(M& x, Model& m, uint8_t w)
    {
        x.width(w);
        m.w = w;
        eq((uint64_t)x.size(), (uint64_t)m.size(), "size after a change of the width");
        x.resize(x.size());
        m.bits.resize(m.size() * w);
    }
};

template<uint8_t W> void history(Src& s, Ctx& c)
{
    typedef int_vector_mapper<W> M;
    typedef const int_vector_mapper<W, ib::in> RO;
    const bool plainable = W == 8 or W == 16 or W == 32 or W == 64;
    const int N = 2, F = 3;
    string dir = scratch() + "/c09";
    ::mkdir(dir.c_str(), 0700);
    for (auto& e : entries(dir))
        if (e[0] != '.') ::unlink((dir + "/" + e).c_str());
    const size_t fds = entries("/proc/self/fd").size();
    string names[F];
    for (int k = 0; k < F; ++k) names[k] = dir + "/f" + str((uint64_t)k);
    string tmpname[N];
    Model f[F + N]; // the last N: files of temporary mappings
    bool exists[F] = {};
    Slot<W> slot[N];
    Rng r(s.seed());
    Log log{c};
    auto note = [&](const string& t) { log += " " + t; };
    size_t wrote = 0;
    auto count = [&](uint8_t w) -> size_t {
        size_t page = 4096 * 8 / w, word = 64 / w + (64 % w != 0);
        switch (s.pick({6, 3, 2, 1})) {
            case 0: return s.len(60);
            case 1: return word * s.u(4) + s.u(2);
            case 2: return page - std::min<size_t>(page, s.u(4)) + s.u(3);
            default: return s.u(3000);
        }
    };
    auto value = [&](uint8_t w) -> uint64_t {
        switch (r.below(6)) {
            case 0: return mask(~0ULL, w);
            case 1: return 0;
            case 2: return r.below(2);
            default: return mask(r.next() >> r.below(64), w);
        }
    };
    auto name_of = [&](int k) { return k < F ? names[k] : tmpname[k - F]; };
    auto free_file = [&](int k) {
        for (auto& x : slot)
            if (x.file == k) return false;
        return true;
    };
    auto closed = [&](int k, bool gone) { // the mapping of this file has just been destroyed
        if (k < 0) return;
        if (gone) {
            if (there(name_of(k))) fail("the file of a temporary mapping is still there");
            if (k < F) exists[k] = false;
        } else file_is<W>(name_of(k), f[k]);
    };
    auto write_file = [&](int k) {
        f[k].plain = plainable and s.chance(1, 3);
        f[k].w = W ? W : s.chance(1, 3) ? 8 << s.u(3) : s.in(1, 64);
        size_t n = count(f[k].w);
        f[k].bits.assign(n * f[k].w, false);
        uint8_t small = 1 + r.below(f[k].w);
        for (size_t i = 0; i < n; ++i) f[k].put(i, r.below(4) ? mask(r.next(), small) : value(f[k].w) & mask(~0ULL, small));
        spit(names[k], image<W>(f[k]));
        exists[k] = true;
    };
    size_t ops = 2 + s.len(30);
    for (size_t o = 0; o < ops; ++o) {
        int i = s.u(N - 1);
        Slot<W>& x = slot[i];
        size_t op = s.pick({4, 5, 5, 4, 3, 3, 1, 2, 2, 1, 1, 2, 1, 1});
        if (x.file < 0 and op != 8 and op != 9 and op != 12) op = 0;
        switch (op) {
            case 0: { // map a file
                int old = x.file;
                bool was_gone = x.gone;
                std::unique_ptr<M> n;
                int k;
                bool gone = false;
                size_t how = s.pick({6, 2, 1, 1});
                if (how == 0 or how == 2) {
                    k = s.u(F - 1);
                    if (!free_file(k)) continue;
                }
                if (how == 0) {
                    if (!exists[k] or s.chance(1, 3)) write_file(k);
                    gone = s.chance(1, 6);
                    note("map(" + str((uint64_t)i) + ",f" + str((uint64_t)k) + (f[k].plain ? ",plain" : "") + (gone ? ",delete" : "") + ":" + str((uint64_t)f[k].size()) + "x" + str((uint64_t)f[k].w) + ")");
                    if (!f[k].plain and !gone and s.b()) {
                        cache_config cc(false, dir, "id");
                        string key = "key" + str((uint64_t)o);
                        register_cache_file(key, cc);
                        string real = cache_file_name(key, cc);
                        ::rename(names[k].c_str(), real.c_str());
                        {
                            M y(key, cc);
                            reads<W>(y, f[k], real, r, false);
                        }
                        file_is<W>(real, f[k]);
                        ::rename(real.c_str(), names[k].c_str());
                    }
                    n.reset(new M(names[k], f[k].plain, gone));
                } else if (how == 2) {
                    note("write_out(" + str((uint64_t)i) + ",f" + str((uint64_t)k) + ")");
                    ::unlink(names[k].c_str());
                    if (s.b()) n.reset(new M(write_out_buffer<W>::create(names[k])));
                    else {
                        cache_config cc(false, dir, "id");
                        string key = "out" + str((uint64_t)o);
                        {
                            M y(write_out_buffer<W>::create(key, cc));
                            req(cache_file_exists(key, cc) and cc.file_map.count(key) and cc.file_map[key] == cache_file_name(key, cc), "the file of write_out_buffer is registered");
                            eq((uint64_t)y.size(), (uint64_t)0, "size of a write_out_buffer");
                            y.push_back(1);
                        }
                        Model one;
                        one.w = W ? W : 64;
                        one.bits.assign(one.w, false);
                        one.bits[0] = true;
                        file_is<W>(cache_file_name(key, cc), one);
                        ::unlink(cache_file_name(key, cc).c_str());
                        n.reset(new M(write_out_buffer<W>::create(names[k])));
                    }
                    f[k] = Model();
                    f[k].w = W ? W : 64;
                    exists[k] = true;
                } else { // temporary
                    int t = 0;
                    while (!free_file(F + t)) ++t;
                    if (t >= N) continue;
                    k = F + t;
                    note("temp(" + str((uint64_t)i) + ")");
                    gone = true;
                    if (how == 1 or !s.chance(1, 4)) {
                        cache_config cc(false, dir, "id");
                        n.reset(new M(temp_file_buffer<W>::create(cc)));
                        req(n->file_name().compare(0, dir.size() + 1, dir + "/") == 0, "the temporary file is in the directory of the configuration");
                    } else n.reset(new M(temp_file_buffer<W>::create()));
                    tmpname[t] = n->file_name();
                    req(there(tmpname[t]), "the file of a temporary mapping exists");
                    for (auto& q : slot) req(!(q.x and q.file >= 0 and q.x->file_name() == tmpname[t]), "temporary files have different names");
                    f[k] = Model();
                    f[k].w = W ? W : 64;
                }
                if (x.x and s.b()) *x.x = std::move(*n);
                else x.x = std::move(n);
                n.reset();
                closed(old, was_gone);
                x.file = k;
                x.gone = gone;
                break;
            }
            case 1: { // write an element
                Model& m = f[x.file];
                if (m.size() == 0) continue;
                note("write(" + str((uint64_t)i) + ")");
                for (size_t n = 1 + s.u(10); n--;) {
                    size_t p = r.below(3) ? r.below(m.size()) : m.size() - 1;
                    uint64_t val = value(m.w);
                    if (r.below(2)) (*x.x)[p] = val;
                    else *(x.x->begin() + p) = val;
                    m.put(p, val);
                    ++wrote;
                }
                break;
            }
            case 2: { // append
                Model& m = f[x.file];
                size_t n = s.chance(1, 6) ? s.u(800) : s.u(20);
                note("append(" + str((uint64_t)i) + "," + str((uint64_t)n) + ")");
                while (n--) {
                    uint64_t val = value(m.w);
                    x.x->push_back(val);
                    m.bits.resize(m.bits.size() + m.w);
                    m.put(m.size() - 1, val);
                    ++wrote;
                }
                break;
            }
            case 3: { // resize; what appears is free to be anything
                Model& m = f[x.file];
                size_t n = s.b() ? count(m.w) : s.chance(1, 3) ? m.size() + s.u(3) : m.size() - std::min<size_t>(m.size(), s.u(3)), before = m.bits.size();
                note("resize(" + str((uint64_t)i) + "," + str((uint64_t)n) + ")");
                if (s.b()) x.x->resize(n);
                else x.x->bit_resize(n * m.w);
                m.bits.resize(n * m.w);
                eq((uint64_t)x.x->size(), (uint64_t)n, "size after resize");
                const uint8_t* d = (const uint8_t*)((const M&)*x.x).data();
                for (size_t b = before; b < m.bits.size(); ++b) m.bits[b] = d[b / 8] >> (b % 8) & 1;
                for (size_t p = before / m.w; p < n; ++p)
                    if (r.below(2)) {
                        uint64_t val = value(m.w);
                        (*x.x)[p] = val;
                        m.put(p, val);
                    }
                break;
            }
            case 4: { // set_int
                Model& m = f[x.file];
                if (m.bits.empty()) continue;
                note("set_int(" + str((uint64_t)i) + ")");
                for (size_t n = 1 + s.u(10); n--;) {
                    uint8_t len = 1 + r.below(std::min<size_t>(limb<W>(), m.bits.size()));
                    size_t p = r.below(m.bits.size() - len + 1);
                    uint64_t val = value(len);
                    x.x->set_int(p, val, len);
                    m.set(p, val, len);
                    ++wrote;
                }
                break;
            }
            case 5: // read all
                note("read(" + str((uint64_t)i) + ")");
                reads<W>(*x.x, f[x.file], name_of(x.file), r, true);
                {
                    size_t p = 0;
                    for (auto it = x.x->begin(); it != x.x->end(); it++, ++p) {
                        if ((uint64_t)*it != f[x.file].at(p)) fail("iteration at " + str((uint64_t)p));
                        if (r.below(8) == 0) {
                            uint64_t val = value(f[x.file].w);
                            *it = val;
                            f[x.file].put(p, val);
                        }
                    }
                    eq((uint64_t)p, (uint64_t)f[x.file].size(), "iterated elements");
                }
                break;
            case 6:
                if (W != 1) continue;
                note("flip(" + str((uint64_t)i) + ")");
                Flip<W == 1>::run(*x.x);
                f[x.file].bits.flip();
                break;
            case 7: { // unmap
                note("unmap(" + str((uint64_t)i) + ")");
                int k = x.file;
                x.file = -1;
                x.x.reset();
                closed(k, x.gone);
                break;
            }
            case 8: { // move
                int j = 1 - i;
                if (slot[j].file < 0) continue;
                note("move(" + str((uint64_t)i) + "<-" + str((uint64_t)j) + ")");
                int old = x.file;
                bool was_gone = x.gone;
                if (x.x and s.b()) {
                    *x.x = std::move(*slot[j].x);
                } else {
                    std::unique_ptr<M> n(new M(std::move(*slot[j].x)));
                    x.x = std::move(n);
                }
                slot[j].x.reset();
                x.file = slot[j].file;
                x.gone = slot[j].gone;
                slot[j].file = -1;
                closed(old, was_gone);
                if (!there(name_of(x.file))) fail("the file of a moved mapping is gone");
                c.label("moved");
                break;
            }
            case 9: { // read-only mappings, several at once
                int k = s.u(F - 1);
                if (!free_file(k)) continue;
                if (!exists[k] or s.chance(1, 3)) write_file(k);
                note("read-only(f" + str((uint64_t)k) + (f[k].plain ? ",plain" : "") + ":" + str((uint64_t)f[k].size()) + "x" + str((uint64_t)f[k].w) + ")");
                string before = slurp(names[k]);
                {
                    RO a(names[k], f[k].plain);
                    reads<W>(a, f[k], names[k], r, true);
                    compares<W>(a, f[k], r);
                    RO b(names[k], f[k].plain);
                    reads<W>(b, f[k], names[k], r, false);
                    req(a == b, "== of two mappings of a file");
                }
                req(slurp(names[k]) == before, "a read-only mapping leaves the file as it was");
                break;
            }
            case 10: { // the same file, again
                int k = x.file;
                if (x.gone) continue;
                note("remap(" + str((uint64_t)i) + ")");
                x.x.reset();
                closed(k, false);
                x.x.reset(new M(names[k], f[k].plain));
                reads<W>(*x.x, f[k], names[k], r, true);
                break;
            }
            case 11:
                note("compare(" + str((uint64_t)i) + ")");
                compares<W>(*x.x, f[x.file], r);
                break;
            case 12: { // not a mappable file
                string bad = dir + "/bad";
                auto throws = [&](std::function<void()> g) {
                    try {
                        g();
                    } catch (const std::exception&) {
                        return true;
                    }
                    return false;
                };
                note("refuse");
                req(throws([&]() { M y(bad); }), "mapping a missing file is refused");
                req(throws([&]() { RO y(bad); }), "mapping a missing file for reading is refused");
                req(!there(bad), "no file is made by refusing");
                string t = "1234567";
                spit(bad, t);
                if (!plainable) req(throws([&]() { M y(bad, true); }), "plain elements of this width are refused");
                else if (W > 8) req(throws([&]() { M y(bad, true); }), "a plain file with a trailing part of an element is refused");
                req(slurp(bad) == t, "the refused file is not changed");
                ::unlink(bad.c_str());
                break;
            }
            default:
                if (W == 0) {
                    Model& m = f[x.file];
                    if (s.chance(2, 3)) {
                        note("bit_compress(" + str((uint64_t)i) + ")");
                        Compress<W == 0>::run(*x.x, m);
                    } else {
                        uint8_t w = s.in(1, 64);
                        note("width(" + str((uint64_t)i) + "," + str((uint64_t)w) + ")");
                        Compress<W == 0>::width(*x.x, m, w);
                    }
                    ++wrote;
                    c.label("width");
                }
        }
        if (x.file >= 0) reads<W>(*x.x, f[x.file], name_of(x.file), r, false);
    }
    for (auto& x : slot)
        if (x.file >= 0) {
            reads<W>(*x.x, f[x.file], name_of(x.file), r, true);
            x.x.reset();
            closed(x.file, x.gone);
            x.file = -1;
        }
    if (entries("/proc/self/fd").size() != fds) fail("file descriptors left open");
    {
        std::ifstream in("/proc/self/maps");
        for (string l; std::getline(in, l);)
            if (l.find(dir + "/f") != string::npos) fail("file still mapped: " + l.substr(l.rfind('/')));
    }
    std::set<string> left = entries(dir), want = {".", ".."};
    for (int k = 0; k < F; ++k)
        if (exists[k]) want.insert("f" + str((uint64_t)k));
    if (left != want) {
        string t;
        for (auto& e : left)
            if (!want.count(e)) t += " " + e;
        fail("files left behind:" + t);
    }
    c.nt(wrote > 3);
}
}
TARGET("w0", 1600) { history<0>(s, c); }
TARGET("w1", 600) { history<1>(s, c); }
TARGET("w7", 600) { history<7>(s, c); }
TARGET("w8", 700) { history<8>(s, c); }
TARGET("w16", 500) { history<16>(s, c); }
TARGET("w20", 500) { history<20>(s, c); }
TARGET("w32", 500) { history<32>(s, c); }
TARGET("w33", 500) { history<33>(s, c); }
TARGET("w64", 700) { history<64>(s, c); }
