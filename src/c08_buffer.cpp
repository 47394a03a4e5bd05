// C08: a disk-backed integer buffer is a persistent array. A history over several buffers and files against vectors.
#include "pbt.hpp"
#include "gen.hpp"
#include <sdsl/vectors.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/ram_fs.hpp>
#include <sdsl/util.hpp>
#include <sdsl/io.hpp>
#include <map>
#include <memory>
#include <unistd.h>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

namespace
{
typedef unsigned __int128 u128;
string slurp(const string& f)
{
    if (is_ram_file(f)) {
        auto& c = ram_fs::content(f);
        return string(c.begin(), c.end());
    }
    std::ifstream in(f, std::ios::binary);
    return string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
bool there(const string& f) { return is_ram_file(f) ? ram_fs::exists(f) : ::access(f.c_str(), F_OK) == 0; }
uint64_t mask(uint64_t x, uint8_t w) { return w == 64 ? x : x & ((1ULL << w) - 1); }
// the bytes of the sequence, elements one behind the other, least significant bit first
string packed(const vector<uint64_t>& v, uint8_t w)
{
    string b((v.size() * w + 7) / 8, 0);
    for (size_t i = 0; i < v.size(); ++i)
        for (uint8_t k = 0; k < w; ++k) {
            size_t p = i * w + k;
            if (v[i] >> k & 1) b[p / 8] |= (char)(1 << (p % 8));
        }
    return b;
}
string le(uint64_t x, size_t n)
{
    string b;
    while (n--) b += (char)x, x >>= 8;
    return b;
}
struct File {
    bool exists = false, plain = false;
    uint8_t w = 64;
    vector<uint64_t> v;
};
template<uint8_t W> string image(const File& f)
{
    if (f.plain) return packed(f.v, f.w);
    string b = packed(f.v, f.w);
    b.resize((b.size() + 7) / 8 * 8, 0);
    return le(f.v.size() * f.w, 8) + (W ? "" : le(f.w, 1)) + b;
}
template<uint8_t W> struct Slot {
    std::unique_ptr<int_vector_buffer<W>> b;
    int file = -1; // -1: not attached
};

template<uint8_t W> void history(Src& s, Ctx& c)
{
    typedef int_vector_buffer<W> B;
    const int N = 3, F = 4;
    string names[F] = {scratch() + "/c08a", "@c08a", scratch() + "/c08b", "@c08b"};
    for (auto& n : names) {
        if (is_ram_file(n)) ram_fs::remove(n);
        else ::unlink(n.c_str());
    }
    File f[F];
    Slot<W> slot[N];
    for (auto& x : slot) x.b.reset(new B());
    Rng r(s.seed());
    Log log{c};
    size_t wrote = 0, switched = 0;
    auto note = [&](const string& t) { log += " " + t; };
    auto bufsize = [&]() -> uint64_t {
        switch (s.u(4)) {
            case 0: return s.u(9);
            case 1: return 8 * (1 + s.u(8));
            case 2: return s.u(300);
            case 3: return 64;
            default: return 1024 * (1 + s.u(3));
        }
    };
    auto value = [&](uint8_t w) {
        if (W == 1) return r.below(2); // elements of a bit vector are truth values
        switch (r.below(5)) {
            case 0: return mask(~0ULL, w);
            case 1: return (uint64_t)0;
            default: return mask(r.next() >> r.below(64), 64); // also values that do not fit
        }
    };
    auto look = [&](int i, size_t p) {
        Slot<W>& x = slot[i];
        uint64_t got = r.below(2) ? (uint64_t)(*x.b)[p] : (uint64_t)*(x.b->begin() + p);
        uint64_t want = f[x.file].v[p];
        if (got != want) fail("buffer " + str((uint64_t)i) + "[" + str((uint64_t)p) + "] is " + str(got) + ", was set to " + str(want));
    };
    auto state = [&](int i) {
        Slot<W>& x = slot[i];
        if (x.file < 0) {
            if (x.b->is_open()) fail("a buffer without file is open");
            return;
        }
        File& m = f[x.file];
        if (!x.b->is_open()) fail("the buffer is not open");
        if (!x.b->good()) fail("the streams are not good");
        if (x.b->size() != m.v.size()) fail("buffer " + str((uint64_t)i) + " has size " + str(x.b->size()) + " instead of " + str((uint64_t)m.v.size()));
        if (x.b->width() != m.w) fail("width " + str((uint64_t)x.b->width()) + " instead of " + str((uint64_t)m.w));
        if (x.b->filename() != names[x.file]) fail("file name " + x.b->filename());
    };
    auto content = [&](int k) { // of a file that is not open
        if (there(names[k]) != f[k].exists) fail("existence of " + names[k]);
        if (!f[k].exists) return;
        string got = slurp(names[k]), want = image<W>(f[k]);
        if (got != want) {
            size_t p = 0;
            while (p < got.size() and p < want.size() and got[p] == want[p]) ++p;
            fail("file of " + str((uint64_t)got.size()) + " bytes instead of " + str((uint64_t)want.size()) + ", first difference at byte " + str((uint64_t)p) + " (" + str((uint64_t)f[k].v.size()) + " elements of " + str((uint64_t)f[k].w) + " bits)");
        }
        if (!f[k].plain) {
            int_vector<W> v;
            req(load_from_file(v, names[k]), "load_from_file");
            if (v.size() != f[k].v.size() or v.width() != f[k].w) fail("loaded vector has another size or width");
            for (size_t i = 0; i < v.size(); ++i)
                if (v[i] != f[k].v[i]) fail("element " + str((uint64_t)i) + " of the loaded vector");
        }
    };
    auto detached = [&](int k) {
        for (auto& x : slot)
            if (x.file == k) return false;
        return true;
    };
    auto all = [&](int i) {
        if (slot[i].file < 0) return;
        for (size_t p = 0; p < f[slot[i].file].v.size(); ++p) look(i, p);
    };
    auto release = [&](int i) { // the buffer was closed or overwritten
        int k = slot[i].file;
        slot[i].file = -1;
        if (k >= 0) content(k);
    };
    auto width_for = [&](bool plain) -> uint8_t {
        if (W) return W;
        if (plain) return 8 << s.u(3);
        return s.chance(1, 3) ? s.in(1, 64) : s.chance(1, 2) ? 8 << s.u(3) : s.in(1, 17);
    };
    size_t ops = 2 + s.len(50);
    for (size_t o = 0; o < ops; ++o) {
        int i = s.u(N - 1);
        Slot<W>& x = slot[i];
        size_t op = s.pick({5, 6, 6, 6, 3, 3, 1, 2, 1, 1, 1, 1, 2});
        if (x.file < 0 and op != 8 and op != 9 and op != 10) op = 0;
        switch (op) {
            case 0: { // attach to a file
                int k = s.u(F - 1);
                if (!detached(k)) continue;
                bool plain = (W == 8 or W == 16 or W == 32 or W == 64 or W == 0) and s.chance(1, 3), in = s.chance(3, 5), write_first = s.chance(1, 3);
                uint8_t w = width_for(plain);
                uint64_t bs = bufsize();
                if (in and write_first) { // a vector somebody else wrote
                    f[k].exists = true;
                    f[k].plain = plain;
                    f[k].w = w;
                    f[k].v.resize(s.len(s.chance(1, 6) ? 3000 : 100));
                    int_vector<W> v(f[k].v.size(), 0, w);
                    for (size_t p = 0; p < v.size(); ++p) v[p] = f[k].v[p] = mask(value(w), w);
                    if (plain) {
                        osfstream out(names[k], std::ios::binary | std::ios::trunc | std::ios::out);
                        string t = packed(f[k].v, w);
                        out.write(t.data(), t.size());
                        out.close();
                    } else store_to_file(v, names[k]);
                }
                if (in and f[k].exists and f[k].plain and W == 0) w = f[k].w;
                note(string(in ? "open-in(" : "open-out(") + str((uint64_t)i) + "," + names[k].substr(names[k].size() - 5) + ",buffer " + str(bs) + ",w" + str((uint64_t)w) + (plain ? ",plain" : "") + ")");
                if (in and f[k].exists) plain = f[k].plain;
                bool def = !plain and W and s.b(), assign = s.b();
                auto mode = in ? (s.chance(1, 4) ? std::ios::in | std::ios::out : std::ios::in) : std::ios::out;
                if (s.chance(1, 4)) mode |= std::ios::binary;
                std::unique_ptr<B> n(def ? new B(names[k], mode, bs) : new B(names[k], mode, bs, w, plain));
                if (in and !f[k].exists) {
                    if (n->is_open() and n->good()) fail("opening a missing file for reading is not reported");
                    c.label("missing file");
                    n.reset();
                    content(k);
                    continue;
                }
                if (!in) {
                    f[k].exists = true;
                    f[k].plain = plain;
                    f[k].w = w;
                    f[k].v.clear();
                }
                if (assign) {
                    *x.b = std::move(*n);
                } else x.b = std::move(n);
                release(i);
                x.file = k;
                break;
            }
            case 1: { // write one, possibly behind the end
                File& m = f[x.file];
                size_t gap = s.pick({4, 2, 2, 1, 1}), p;
                p = gap == 0 ? (m.v.empty() ? 0 : r.below(m.v.size())) : gap == 1 ? m.v.size() : gap == 2 ? m.v.size() + s.u(20) : gap == 3 ? m.v.size() + s.u(700) : 0;
                if (m.v.size() > 20000) p = r.below(m.v.size());
                uint64_t val = value(m.w);
                note("[" + str((uint64_t)i) + "][" + str((uint64_t)p) + "]=" + str(val));
                if (p >= m.v.size()) m.v.resize(p + 1, 0);
                m.v[p] = mask(val, m.w);
                if (r.below(2)) (*x.b)[p] = val;
                else *(x.b->begin() + p) = val;
                ++wrote;
                break;
            }
            case 2: { // append
                File& m = f[x.file];
                size_t n = s.chance(1, 6) ? s.u(800) : s.u(20);
                note("append(" + str((uint64_t)i) + "," + str((uint64_t)n) + ")");
                while (n--) {
                    uint64_t val = value(m.w);
                    x.b->push_back(val);
                    m.v.push_back(mask(val, m.w));
                    ++wrote;
                }
                break;
            }
            case 3: { // the proxy
                File& m = f[x.file];
                if (m.v.empty()) continue;
                size_t n = 1 + s.u(8);
                note("proxy(" + str((uint64_t)i) + "," + str((uint64_t)n) + ")");
                while (n--) {
                    size_t p = r.below(m.v.size()), q = r.below(m.v.size());
                    uint64_t a = m.v[p], val = value(m.w);
                    auto ref = (*x.b)[p];
                    switch (W == 1 ? 6 + r.below(4) : r.below(10)) { // no arithmetic on truth values
                        case 0: ++ref; m.v[p] = mask(a + 1, m.w); break;
                        case 1: --ref; m.v[p] = mask(a - 1, m.w); break;
                        case 2: eq((uint64_t)(ref++), a, "value of x++"); m.v[p] = mask(a + 1, m.w); break;
                        case 3: eq((uint64_t)(ref--), a, "value of x--"); m.v[p] = mask(a - 1, m.w); break;
                        case 4: ref += val; m.v[p] = mask(a + val, m.w); break;
                        case 5: ref -= val; m.v[p] = mask(a - val, m.w); break;
                        case 6: {
                            auto other = (*x.b)[q];
                            ref = other;
                            m.v[p] = m.v[q];
                            break;
                        }
                        case 7: (*x.b)[p] = (uint64_t)(*x.b)[q]; m.v[p] = m.v[q]; break;
                        case 8: if (((*x.b)[p] == (*x.b)[q]) != (m.v[p] == m.v[q])) fail("== of two elements"); break;
                        default: if (((*x.b)[p] < (*x.b)[q]) != (m.v[p] < m.v[q])) fail("< of two elements");
                    }
                    look(i, p);
                    ++wrote;
                }
                break;
            }
            case 4: { // random reads
                File& m = f[x.file];
                note("read(" + str((uint64_t)i) + ")");
                for (size_t n = m.v.empty() ? 0 : 1 + s.u(30); n--;) look(i, r.below(m.v.size()));
                break;
            }
            case 5: { // iterate
                File& m = f[x.file];
                note("iterate(" + str((uint64_t)i) + ")");
                auto it = x.b->begin(), e = x.b->end();
                eq((uint64_t)(e - it), (uint64_t)m.v.size(), "end()-begin()");
                size_t p = 0;
                bool post = s.b(), wr = s.chance(1, 4);
                for (; it != e; post ? (void)it++ : (void)++it, ++p) {
                    if ((uint64_t)*it != m.v[p]) fail("iteration at " + str((uint64_t)p) + ": got " + str((uint64_t)*it) + " want " + str(m.v[p]));
                    if (wr and r.below(3) == 0) *it = m.v[p] = mask(value(m.w), m.w);
                }
                eq((uint64_t)p, (uint64_t)m.v.size(), "iterated elements");
                while (p) {
                    if (post) it--;
                    else --it;
                    --p;
                    if ((uint64_t)*it != m.v[p]) fail("backward iteration at " + str((uint64_t)p) + ": got " + str((uint64_t)*it) + " want " + str(m.v[p]));
                    if (r.below(20) == 0) break;
                }
                if (!m.v.empty()) {
                    size_t a = r.below(m.v.size()), b = r.below(m.v.size());
                    auto ia = x.b->begin() + a;
                    auto ib = x.b->end() - (m.v.size() - b);
                    eq((uint64_t)*ia, m.v[a], "*(begin()+i)");
                    eq((uint64_t)*ib, m.v[b], "*(end()-i)");
                    eq((int64_t)(ia - ib), (int64_t)a - (int64_t)b, "difference of iterators");
                    ia += (int64_t)b - (int64_t)a;
                    req(ia == ib, "iterators at the same position");
                    ia -= (int64_t)b - (int64_t)a;
                    eq((uint64_t)*ia, m.v[a], "iterator moved back");
                }
                break;
            }
            case 6: { // change the buffer
                uint64_t bs = bufsize();
                note("buffersize(" + str((uint64_t)i) + "," + str(bs) + ")");
                x.b->buffersize(bs);
                if (x.b->buffersize() < bs) fail("buffersize is " + str(x.b->buffersize()) + " after asking for " + str(bs));
                break;
            }
            case 7: { // close and look at the file
                note("close(" + str((uint64_t)i) + ")");
                bool del = s.chance(1, 5);
                if (del) {
                    f[x.file].exists = false;
                    f[x.file].v.clear();
                }
                int how = s.u(2);
                if (how or del) x.b->close(del);
                else x.b.reset(new B());
                if (how == 2) x.b->close();
                release(i);
                break;
            }
            case 8: { // move
                int j = s.u(N - 1);
                if (i == j) continue;
                note("move(" + str((uint64_t)i) + "<-" + str((uint64_t)j) + ")");
                bool assign = s.b();
                if (assign) *x.b = std::move(*slot[j].b);
                else {
                    std::unique_ptr<B> n(new B(std::move(*slot[j].b)));
                    x.b = std::move(n);
                }
                release(i);
                x.file = slot[j].file;
                slot[j].file = -1;
                eq((uint64_t)slot[j].b->size(), (uint64_t)0, "size of a buffer that was moved away");
                ++switched;
                state(j);
                break;
            }
            case 9: { // swap
                int j = s.u(N - 1);
                note("swap(" + str((uint64_t)i) + "," + str((uint64_t)j) + ")");
                if (s.b()) x.b->swap(*slot[j].b);
                else if (i != j) std::swap(*x.b, *slot[j].b);
                std::swap(x.file, slot[j].file);
                state(j);
                ++switched;
                break;
            }
            case 10: { // destroy a closed one
                if (x.file >= 0) continue;
                x.b.reset(new B());
                eq((uint64_t)x.b->size(), (uint64_t)0, "size of a default constructed buffer");
                break;
            }
            case 11: { // drop everything
                note("reset(" + str((uint64_t)i) + ")");
                x.b->reset();
                f[x.file].v.clear();
                break;
            }
            default: // close and open again
                note("reopen(" + str((uint64_t)i) + ")");
                {
                    int k = x.file;
                    x.b->close();
                    release(i);
                    x.b.reset(new B(names[k], std::ios::in, bufsize(), f[k].w, f[k].plain));
                    x.file = k;
                }
        }
        state(i);
        if (x.file >= 0 and !f[x.file].v.empty()) look(i, r.below(f[x.file].v.size()));
    }
    for (int i = 0; i < N; ++i) all(i);
    for (int i = 0; i < N; ++i) {
        if (s.b()) slot[i].b->close();
        slot[i].b.reset();
        release(i);
    }
    for (int k = 0; k < F; ++k) content(k);
    c.nt(wrote > 5);
    if (switched) c.label("moved or swapped");
}
}
TARGET("w0", 1600) { history<0>(s, c); }
TARGET("w1", 600) { history<1>(s, c); }
TARGET("w7", 600) { history<7>(s, c); }
TARGET("w8", 700) { history<8>(s, c); }
TARGET("w16", 500) { history<16>(s, c); }
TARGET("w20", 500) { history<20>(s, c); }
TARGET("w32", 500) { history<32>(s, c); }
TARGET("w33", 500) { history<33>(s, c); }
TARGET("w64", 700) { history<64>(s, c); }
