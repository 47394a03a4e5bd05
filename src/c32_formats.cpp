// C32: integer data survives every supported file format. Write with one of the writers, check the file against the
// format's definition, read with every matching reader.
#include "pbt.hpp"
#include "gen.hpp"
#include <sdsl/vectors.hpp>
#include <sdsl/int_vector_buffer.hpp>
#include <sdsl/int_vector_mapper.hpp>
#include <sdsl/int_vector_io_wrappers.hpp>
#include <sdsl/coder.hpp>
#include <sdsl/construct.hpp>
#include <sdsl/io.hpp>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

namespace
{
string slurp(const string& f)
{
    if (is_ram_file(f)) {
        auto& c = ram_fs::content(f);
        return string(c.begin(), c.end());
    }
    std::ifstream in(f, std::ios::binary);
    return string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
void spit(const string& f, const string& b)
{
    osfstream o(f, std::ios::binary | std::ios::trunc | std::ios::out);
    o.write(b.data(), b.size());
    o.close();
}
string le(uint64_t x, size_t n)
{
    string b;
    while (n--) b += (char)x, x >>= 8;
    return b;
}
unsigned need(const vector<uint64_t>& v) // smallest sufficient width
{
    uint64_t m = 0;
    for (auto x : v) m = std::max(m, x);
    return m ? 64 - __builtin_clzll(m) : 1;
}
string raw_image(const vector<uint64_t>& v, unsigned nb)
{
    string b;
    b.reserve(v.size() * nb);
    for (auto x : v) b += le(x, nb);
    return b;
}
string ser_image(const vector<uint64_t>& v, unsigned w, bool variable)
{
    string b((v.size() * w + 63) / 64 * 8, 0);
    for (size_t i = 0; i < v.size(); ++i)
        for (unsigned k = 0; k < w; ++k)
            if (v[i] >> k & 1) b[(i * w + k) / 8] |= (char)(1 << ((i * w + k) % 8));
    return le(v.size() * w, 8) + (variable ? le(w, 1) : "") + b;
}
// serialized vectors may carry anything behind the last element
void same_ser(const string& got, const vector<uint64_t>& v, unsigned w, bool variable)
{
    string want = ser_image(v, w, variable);
    eq((uint64_t)got.size(), (uint64_t)want.size(), "length of the file");
    size_t h = 8 + variable, bits = v.size() * w;
    for (size_t i = 0; i < h + bits / 8; ++i)
        if (got[i] != want[i]) fail("byte " + str((uint64_t)i) + " of the file");
    for (size_t i = bits / 8 * 8; i < bits; ++i)
        if ((got[h + i / 8] >> (i % 8) & 1) != (want[h + i / 8] >> (i % 8) & 1)) fail("last byte of the file");
}
void same_file(const string& name, const string& want)
{
    string got = slurp(name);
    eq((uint64_t)got.size(), (uint64_t)want.size(), "length of the file");
    eq((uint64_t)util::file_size(name), (uint64_t)want.size(), "file_size");
    for (size_t i = 0; i < want.size(); ++i)
        if (got[i] != want[i]) fail("byte " + str((uint64_t)i) + " of the file");
}
template<class V> void same_seq(V& x, const vector<uint64_t>& v, const string& reader)
{
    if (x.size() != v.size()) fail(reader + ": size " + str((uint64_t)x.size()) + " instead of " + str((uint64_t)v.size()));
    for (size_t i = 0; i < v.size(); ++i)
        if ((uint64_t)x[i] != v[i]) fail(reader + ": [" + str((uint64_t)i) + "] is " + str((uint64_t)x[i]) + " instead of " + str(v[i]));
}
template<class V> void is_width(const V& x, unsigned w, const string& reader)
{
    if (x.width() != w) fail(reader + ": width " + str((uint64_t)x.width()) + " instead of " + str((uint64_t)w));
}
template<uint8_t W> int_vector<W> make(const vector<uint64_t>& v, unsigned w)
{
    int_vector<W> x(v.size(), 0, w);
    for (size_t i = 0; i < v.size(); ++i) x[i] = v[i];
    return x;
}
template<class V> V dirty(Src& s) // readers get a vector that already holds something
{
    V x;
    if (s.b()) {
        x.width(s.in(1, 64));
        x.resize(s.u(40));
        for (size_t i = 0; i < x.size(); ++i) x[i] = ~0ULL;
    }
    return x;
}

vector<uint64_t> sequence(Src& s, Ctx& c, unsigned w, bool positive = false)
{
    auto v = gen::ints(s, 400, w);
    for (auto& x : v) {
        if (w < 64) x &= (1ULL << w) - 1;
        if (positive and !x) x = 1;
    }
    if (v.size() < 40) c.describe([&]() { return pbt::vec(v) + " "; });
    else c.describe([&]() { return str((uint64_t)v.size()) + " values "; });
    c.nt(v.size() > 2);
    return v;
}
string file(Src& s)
{
    switch (s.u(4)) {
        case 0: return "@c32";
        case 1: return "@c32/dir/f";
        default: return scratch() + "/c32";
    }
}
void clear(const string& f) { sdsl::remove(f); }
template<class F> bool throws(F f)
{
    try {
        f();
    } catch (const std::logic_error&) {
        return true;
    }
    return false;
}

// ---- raw arrays of nb-byte integers
template<class U> bool plain(Src& s, const vector<uint64_t>& v, const string& f)
{
    switch (s.u(3)) {
        case 0: {
            auto x = make<0>(v, s.in(need(v), 64));
            return store_to_plain_array<U>(x, f);
        }
        case 1: {
            auto x = make<64>(v, 64);
            return store_to_plain_array<U>(x, f);
        }
        case 2: {
            auto x = make < 8 * sizeof(U) > (v, 8 * sizeof(U));
            return store_to_plain_array<U>(x, f);
        }
        default: {
            int_vector_buffer < 8 * sizeof(U) > b(f, std::ios::out, s.u(100), 8 * sizeof(U), true);
            for (auto x : v) b.push_back(x);
            return b.good();
        }
    }
}
template<uint8_t W> void read_plain(const vector<uint64_t>& v, const string& f)
{
    {
        int_vector_buffer<W> b(f, std::ios::in, 64, W, true);
        same_seq(b, v, "int_vector_buffer<W>, plain");
    }
    if (is_ram_file(f)) return;
    read_only_mapper<W> m(f, true);
    same_seq(m, v, "int_vector_mapper<W>, plain");
}
template<uint8_t W> void read_into(const vector<uint64_t>& v, const string& f, unsigned nb)
{
    if (need(v) > W) return;
    int_vector<W> x;
    req(load_vector_from_file(x, f, nb), "load_vector_from_file of a fixed width vector reports failure");
    same_seq(x, v, "load_vector_from_file into int_vector<" + str((uint64_t)W) + ">");
}
}
TARGET("raw", 1500)
{
    unsigned nb = 1 << s.u(3);
    string f = file(s);
    clear(f);
    auto v = sequence(s, c, s.b() ? 8 * nb : s.in(1, 8 * nb));
    c.describe([&]() { return str((uint64_t)nb) + " bytes, " + f.substr(0, 4); });
    bool ok = false;
    size_t how = s.u(4);
    string image = raw_image(v, nb);
    if (how == 0) {
        ok = true;
        spit(f, image);
    } else if (how == 1 and nb == 1) {
        if (image.find('\0') == string::npos and s.b()) ok = store_to_file(image.c_str(), f);
        else ok = store_to_file(image, f);
    } else ok = nb == 1 ? plain<uint8_t>(s, v, f) : nb == 2 ? plain<uint16_t>(s, v, f) : nb == 4 ? plain<uint32_t>(s, v, f) : plain<uint64_t>(s, v, f);
    req(ok, "the writer reports failure");
    same_file(f, image);
    {
        auto x = dirty<int_vector<>>(s);
        req(load_vector_from_file(x, f, nb), "load_vector_from_file reports failure");
        if (!v.empty()) is_width(x, 8 * nb, "load_vector_from_file");
        same_seq(x, v, "load_vector_from_file");
    }
    {
        auto x = dirty<int_vector<>>(s);
        unsigned w = s.in(need(v), 64);
        req(load_vector_from_file(x, f, nb, w), "load_vector_from_file reports failure");
        if (!v.empty()) is_width(x, std::min(w, 8 * nb), "load_vector_from_file with a largest width");
        same_seq(x, v, "load_vector_from_file with a largest width");
    }
    read_into<8>(v, f, nb);
    read_into<16>(v, f, nb);
    read_into<32>(v, f, nb);
    read_into<64>(v, f, nb);
    {
        int_vector_buffer<> b(f, std::ios::in, s.u(100), 8 * nb, true);
        same_seq(b, v, "int_vector_buffer<>, plain");
    }
    if (nb == 1) read_plain<8>(v, f);
    else if (nb == 2) read_plain<16>(v, f);
    else if (nb == 4) read_plain<32>(v, f);
    else read_plain<64>(v, f);
    same_file(f, image);
    if (nb > 1) { // a part of an element at the end
        string cut = image + string(s.in(1, nb - 1), (char)s.u(255));
        if (s.b() and image.size()) cut = image.substr(0, image.size() - s.in(1, nb - 1));
        spit(f, cut);
        auto x = dirty<int_vector<>>(s);
        bool reported = false;
        reported = throws([&]() { reported = !load_vector_from_file(x, f, nb); }) or reported;
        req(reported, "a trailing part of an element is reported");
        same_file(f, cut);
    }
    clear(f);
}
// the byte text of the index constructions: no symbol 0, one 0 appended
TARGET("text", 500)
{
    string f = file(s);
    clear(f);
    bool bytes = s.chance(2, 3);
    auto v = sequence(s, c, bytes ? 8 : s.in(1, 64), s.chance(2, 3));
    bool zero = std::find(v.begin(), v.end(), 0) != v.end();
    auto go = [&](auto x, unsigned nb) {
        req(load_vector_from_file(x, f, nb), "load_vector_from_file reports failure");
        bool refused = throws([&]() { contains_no_zero_symbol(x, f); });
        if (refused != zero) fail(zero ? "a text with the symbol 0 is accepted" : "a text without the symbol 0 is refused");
        append_zero_symbol(x);
        auto w = v;
        w.push_back(0);
        same_seq(x, w, "text with sentinel");
    };
    if (bytes) {
        req(store_to_file(raw_image(v, 1), f), "store_to_file of a string");
        go(int_vector<8>(), 1);
    } else {
        req(store_to_file(make<0>(v, s.in(need(v), 64)), f), "store_to_file");
        go(int_vector<>(), 0);
    }
    clear(f);
}
// ---- decimal text
TARGET("decimal", 700)
{
    string f = file(s);
    clear(f);
    auto v = sequence(s, c, s.in(1, 64));
    string t;
    size_t how = s.u(3);
    if (how == 0) {
        std::stringstream ss;
        ss << make<0>(v, s.in(need(v), 64));
        t = ss.str();
    } else if (how == 1) {
        std::stringstream ss;
        ss << v;
        t = ss.str();
    } else {
        Rng r(s.seed());
        const char* space[] = {" ", "\n", "\t", "  ", "\r\n", " \n\n "};
        if (r.below(2)) t += space[r.below(6)];
        for (auto x : v) {
            if (r.below(10) == 0) t += string(r.below(3), '0');
            t += std::to_string(x) + space[how == 2 ? 0 : r.below(6)];
        }
        if (t.size() and r.below(2)) t.pop_back();
    }
    c.describe([&]() { return "'" + t.substr(0, 60) + "'"; });
    req(store_to_file(t, f), "store_to_file of a string");
    same_file(f, t);
    auto x = dirty<int_vector<>>(s);
    req(load_vector_from_file(x, f, 'd'), "load_vector_from_file reports failure");
    is_width(x, need(v), "decimal text");
    same_seq(x, v, "decimal text");
    int_vector<64> y;
    req(load_vector_from_file(y, f, 'd'), "load_vector_from_file reports failure");
    same_seq(y, v, "decimal text into int_vector<64>");
    clear(f);
}
// ---- serialized vectors
namespace
{
template<uint8_t W> void read_ser(Src& s, const vector<uint64_t>& v, const string& f, unsigned w)
{
    {
        auto x = W ? int_vector<W>(s.u(30), 1) : int_vector<W>(s.u(30), 1, s.in(1, 64));
        req(load_from_file(x, f), "load_from_file reports failure");
        is_width(x, w, "load_from_file");
        same_seq(x, v, "load_from_file");
    }
    {
        int_vector<W> x;
        req(load_vector_from_file(x, f, 0), "load_vector_from_file reports failure");
        is_width(x, w, "load_vector_from_file");
        same_seq(x, v, "load_vector_from_file");
    }
    {
        int_vector_buffer<W> b(f, std::ios::in, s.u(100));
        is_width(b, w, "int_vector_buffer");
        same_seq(b, v, "int_vector_buffer");
    }
    if (!is_ram_file(f)) {
        read_only_mapper<W> m(f);
        is_width(m, w, "int_vector_mapper");
        same_seq(m, v, "int_vector_mapper");
    }
}
template<uint8_t W> void serialized(Src& s, Ctx& c)
{
    string f = file(s), chk = f + "_check";
    clear(f);
    auto v = sequence(s, c, W ? W : s.in(1, 64));
    unsigned w = W ? W : s.in(need(v), 64);
    c.describe([&]() { return "width " + str((uint64_t)w) + " " + f.substr(0, 4); });
    auto x = make<W>(v, w);
    bool variable = false, checked = false;
    switch (s.u(6)) {
        case 0: req(store_to_file(x, f), "store_to_file"); break;
        case 1: req(store_to_file(x, f, false), "store_to_file"); break;
        case 2:
            req(store_to_file(x, f, true), "store_to_file");
            variable = true;
            break;
        case 3: {
            int_vector_buffer<W> b(f, std::ios::out, s.u(100), w);
            for (auto y : v) b.push_back(y);
            b.close();
            break;
        }
        case 4: spit(f, ser_image(v, w, W == 0)); break;
        case 5:
            req(store_to_checked_file(x, f, false), "store_to_checked_file");
            checked = true;
            break;
        default:
            req(store_to_checked_file(x, f, true), "store_to_checked_file");
            variable = true;
            checked = true;
    }
    same_ser(slurp(f), v, w, variable or W == 0);
    if (variable or W == 0) {
        read_ser<0>(s, v, f, w);
        if (checked) {
            int_vector<> y;
            req(load_from_checked_file(y, f), "load_from_checked_file of the class in the file");
            same_seq(y, v, "load_from_checked_file");
            int_vector < W ? W : 16 > z;
            req(!load_from_checked_file(z, f), "load_from_checked_file of another class is reported");
        }
    } else {
        read_ser<W>(s, v, f, w);
        if (checked) {
            int_vector<W> y;
            req(load_from_checked_file(y, f), "load_from_checked_file of the class in the file");
            same_seq(y, v, "load_from_checked_file");
            int_vector<> z;
            req(!load_from_checked_file(z, f), "load_from_checked_file of another class is reported");
        }
    }
    if (checked) clear(chk);
    clear(f);
}
template<class T> void std_vector(Src& s, Ctx& c)
{
    string f = file(s);
    clear(f);
    auto v = sequence(s, c, 8 * sizeof(T));
    vector<T> x(v.begin(), v.end()), y(s.u(20), 7);
    req(store_to_file(x, f), "store_to_file of a std::vector");
    same_file(f, le(v.size(), 8) + raw_image(v, sizeof(T)));
    req(load_from_file(y, f), "load_from_file of a std::vector");
    same_seq(y, v, "std::vector");
    eq((uint64_t)size_in_bytes(make<0>(v, 8 * sizeof(T))), (uint64_t)ser_image(v, 8 * sizeof(T), true).size(), "size_in_bytes");
    clear(f);
}
template<uint8_t W> void vbyte(Src& s, Ctx& c)
{
    auto v = sequence(s, c, W ? W : s.in(1, 64));
    unsigned w = W ? W : s.in(need(v), 64);
    auto x = make<W>(v, w);
    std::stringstream ss;
    string before = s.b() ? "head" : "";
    ss << before;
    size_t n = int_vector_serialize_vbyte_wrapper<W>(x).serialize(ss);
    string b = ss.str().substr(before.size()), want = le(v.size() * w, 8) + (W ? "" : le(w, 1));
    for (auto y : v) { // seven bits per byte, least significant ones first, highest bit: more follows
        while (y > 0x7F) want += (char)(y | 0x80), y >>= 7;
        want += (char)y;
    }
    eq((uint64_t)n, (uint64_t)want.size(), "written bytes");
    req(b == want, "vbyte coded bytes");
    int_vector<W> y;
    string h(before.size(), 0);
    ss << "tail";
    ss.read(&h[0], h.size());
    int_vector_load_vbyte_wrapper<W>(y).load(ss);
    is_width(y, w, "vbyte");
    same_seq(y, v, "vbyte");
    string rest;
    ss >> rest;
    req(rest == "tail", "position after loading");
}
template<class C> void vlen(Src& s, Ctx& c)
{
    auto v = sequence(s, c, s.in(1, 63), true);
    unsigned w = s.in(need(v), 64);
    auto x = make<0>(v, w);
    std::stringstream ss;
    size_t n = int_vector_serialize_vlen_wrapper<C>(x).serialize(ss);
    eq((uint64_t)n, (uint64_t)ss.str().size(), "written bytes");
    ss << "tail";
    auto y = dirty<int_vector<>>(s);
    int_vector_load_vlen_wrapper<C>(y).load(ss);
    is_width(y, w, "vlen");
    same_seq(y, v, "vlen");
    string rest;
    ss >> rest;
    req(rest == "tail", "position after loading");
    std::stringstream s2;
    eq((uint64_t)int_vector_serialize_wrapper<>(x).serialize(s2), (uint64_t)s2.str().size(), "written bytes");
    same_ser(s2.str(), v, w, true);
    int_vector_load_wrapper<>(y).load(s2);
    is_width(y, w, "plain wrapper");
    same_seq(y, v, "plain wrapper");
}
}
TARGET("ser0", 900) { serialized<0>(s, c); }
TARGET("ser1", 300) { serialized<1>(s, c); }
TARGET("ser8", 300) { serialized<8>(s, c); }
TARGET("ser16", 300) { serialized<16>(s, c); }
TARGET("ser24", 300) { serialized<24>(s, c); }
TARGET("ser32", 300) { serialized<32>(s, c); }
TARGET("ser64", 300) { serialized<64>(s, c); }
TARGET("std8", 100) { std_vector<uint8_t>(s, c); }
TARGET("std16", 100) { std_vector<uint16_t>(s, c); }
TARGET("std32", 100) { std_vector<uint32_t>(s, c); }
TARGET("std64", 100) { std_vector<uint64_t>(s, c); }
TARGET("vbyte0", 300) { vbyte<0>(s, c); }
TARGET("vbyte8", 100) { vbyte<8>(s, c); }
TARGET("vbyte16", 100) { vbyte<16>(s, c); }
TARGET("vbyte32", 100) { vbyte<32>(s, c); }
TARGET("vbyte64", 100) { vbyte<64>(s, c); }
TARGET("vlen_delta", 200) { vlen<coder::elias_delta>(s, c); }
TARGET("vlen_gamma", 200) { vlen<coder::elias_gamma>(s, c); }
TARGET("vlen_fibonacci", 200) { vlen<coder::fibonacci>(s, c); }
// ---- files that are not there
TARGET("missing", 300)
{
    string f = s.b() ? "@c32none" : s.b() ? scratch() + "/c32none" : scratch() + "/none/c32";
    clear(f);
    auto v = sequence(s, c, 8);
    c.nt(true);
    auto x = dirty<int_vector<>>(s);
    int_vector<8> y;
    uint8_t nb = (uint8_t[]) {0, 1, 2, 4, 8, 'd'}[s.u(5)];
    c.describe([&]() { return f.substr(f.size() - 8) + " format " + str((uint64_t)nb); });
    bool in = false;
    switch (s.u(5)) {
        case 0: in = load_vector_from_file(x, f, nb); break;
        case 1: in = load_vector_from_file(y, f, 1); break;
        case 2: in = load_from_file(x, f); break;
        case 3: in = load_from_checked_file(x, f); break;
        case 4: { // the check file alone
            req(is_ram_file(f) or f.find("/none/") != string::npos or (store_to_checked_file(x, f, false) and !sdsl::remove(f)), "store_to_checked_file");
            in = load_from_checked_file(x, f);
            clear(f + "_check");
            break;
        }
        default: {
            vector<uint32_t> z;
            in = load_from_file(z, f);
        }
    }
    req(!in, "reading a missing file is reported");
    req(!(is_ram_file(f) ? ram_fs::exists(f) : ::access(f.c_str(), F_OK) == 0), "reading makes no file");
    string g = scratch() + "/none/c32";
    auto a = make<0>(v, 8);
    auto b = make<8>(v, 8);
    bool out = false;
    switch (s.u(6)) {
        case 0: out = store_to_file(a, g); break;
        case 1: out = store_to_file(b, g, true); break;
        case 2: out = store_to_plain_array<uint8_t>(a, g); break;
        case 3: out = store_to_file(raw_image(v, 1), g); break;
        case 4: out = store_to_file("text", g); break;
        case 5: out = store_to_checked_file(a, g, false); break;
        default: out = store_to_file(v, g);
    }
    req(!out, "writing to a file that cannot be created is reported");
}
// ---- several blocks of the readers
TARGET("blocks", 3)
{
    size_t n = conf::SDSL_BLOCK_SIZE + s.in(0, 70) - 35 + (s.b() ? conf::SDSL_BLOCK_SIZE : 0);
    unsigned nb = s.chance(2, 3) ? 2 : 1;
    Rng r(s.seed());
    vector<uint64_t> v(n);
    for (auto& x : v) x = r.next() & (nb == 1 ? 0xFF : 0xFFFF);
    c.describe([&]() { return str((uint64_t)n) + " values of " + str((uint64_t)nb) + " bytes"; });
    c.nt(true);
    string f = file(s);
    spit(f, raw_image(v, nb));
    auto x = int_vector<>();
    req(load_vector_from_file(x, f, nb), "load_vector_from_file reports failure");
    same_seq(x, v, "load_vector_from_file");
    req(store_to_file(x, f), "store_to_file");
    same_file(f, le(n * nb * 8, 8) + le(nb * 8, 1) + raw_image(v, nb) + string((8 - n * nb % 8) % 8, 0));
    int_vector<> y;
    req(load_from_file(y, f), "load_from_file reports failure");
    same_seq(y, v, "load_from_file");
    clear(f);
}
// more words than a block of the serialized format
TARGET("words", 1)
{
    size_t n = conf::SDSL_BLOCK_SIZE + s.in(0, 6) - 3;
    Rng r(s.seed());
    string f = file(s);
    c.describe([&]() { return str((uint64_t)n) + " words"; });
    c.nt(true);
    int_vector<64> x(n), y;
    for (auto it = x.data(); it != x.data() + n; ++it) *it = r.next();
    req(store_to_file(x, f), "store_to_file");
    eq((uint64_t)util::file_size(f), (uint64_t)(8 + 8 * n), "file_size");
    req(load_from_file(y, f), "load_from_file");
    req(y.size() == n and std::equal(x.data(), x.data() + n, y.data()), "words of the loaded vector");
    clear(f);
}
