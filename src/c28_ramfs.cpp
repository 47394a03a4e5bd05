// C28: in-memory files behave like disk files. Every operation is done on both and on a plain model.
#include "pbt.hpp"
#include "gen.hpp"
#include <sdsl/vectors.hpp>
#include <sdsl/ram_fs.hpp>
#include <sdsl/sfstream.hpp>
#include <sdsl/util.hpp>
#include <sdsl/io.hpp>
#include <map>
#include <memory>
#include <unistd.h>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

static string slurp_disk(const string& f)
{
    std::ifstream in(f, std::ios::binary);
    return string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
static string bytes(Rng& r, size_t n)
{
    string t(n, 0);
    int mode = r.below(4);
    for (auto& x : t) x = mode == 0 ? (char)r.below(256) : mode == 1 ? (char)0xFF : mode == 2 ? (char)0 : (char)('a' + r.below(26));
    return t;
}
static std::ios_base::openmode OUT = std::ios::out | std::ios::binary, IN = std::ios::in | std::ios::binary;

// The other side of every comparison: a disk file, written and read by the library's stream or the standard one.
struct DiskOut {
    std::unique_ptr<osfstream> a;
    std::unique_ptr<std::ofstream> b;
    DiskOut(const string& f, std::ios_base::openmode m, bool standard)
    {
        if (standard) b.reset(new std::ofstream(f, m));
        else a.reset(new osfstream(f, m));
    }
    operator std::ostream& () { return os(); }
    std::ostream& os() { return a ? static_cast<std::ostream&>(*a) : static_cast<std::ostream&>(*b); }
    bool is_open() { return a ? a->is_open() : b->is_open(); }
    void close() { if (a) a->close(); else b->close(); }
    void seekp(int64_t p) { if (a) a->seekp(p); else b->seekp(p); }
    void seekp(int64_t o, std::ios_base::seekdir d) { if (a) a->seekp(o, d); else b->seekp(o, d); }
    int64_t tellp() { return a ? a->tellp() : b->tellp(); }
    // the flags beyond fail() after a failed open are only the same for the library's own streams
    uint64_t state(std::ios& like) { return a ? (uint64_t)a->rdstate() : b->fail() ? (uint64_t)like.rdstate() | (like.fail() ? 0 : 64) : (uint64_t)b->rdstate(); }
};
struct DiskIn {
    std::unique_ptr<isfstream> a;
    std::unique_ptr<std::ifstream> b;
    DiskIn(const string& f, std::ios_base::openmode m, bool standard)
    {
        if (standard) b.reset(new std::ifstream(f, m));
        else a.reset(new isfstream(f, m));
    }
    operator std::istream& () { return is(); }
    std::istream& is() { return a ? static_cast<std::istream&>(*a) : static_cast<std::istream&>(*b); }
    bool open(const string& f, std::ios_base::openmode m)
    {
        if (a) return a->open(f, m);
        if (b->is_open()) b->close();
        b->clear();
        b->open(f, m);
        return b->is_open();
    }
    bool is_open() { return a ? a->is_open() : b->is_open(); }
    void close() { if (a) a->close(); else b->close(); }
    void seekg(int64_t p) { if (a) a->seekg(p); else b->seekg(p); }
    void seekg(int64_t o, std::ios_base::seekdir d) { if (a) a->seekg(o, d); else b->seekg(o, d); }
    int64_t tellg() { return a ? a->tellg() : b->tellg(); }
    uint64_t state(std::ios& like) { return a ? (uint64_t)a->rdstate() : b->fail() ? (uint64_t)like.rdstate() | (like.fail() ? 0 : 64) : (uint64_t)b->rdstate(); }
};

struct Writer {
    std::unique_ptr<osfstream> ram;
    std::unique_ptr<DiskOut> disk;
    int file = -1;
    bool app = false, touched = false;
};
struct Reader {
    std::unique_ptr<isfstream> ram;
    std::unique_ptr<DiskIn> disk;
    int file = -1;
    uint64_t seen = 0; // version of the file when the reader was opened or positioned
};
static const char* NAMES[] = {"a", "b", "ab", "long name with spaces", "a.b"};

TARGET("history", 4000)
{
    string dir = scratch() + "/";
    auto ram = [&](int f) {
        return string("@c28") + NAMES[f];
    };
    auto disk = [&](int f) {
        return dir + NAMES[f];
    };
    std::map<int, string> model; // file -> content, as it must be once no writer holds unflushed data
    for (int f = 0; f < 5; ++f) ram_fs::remove(ram(f)), ::unlink(disk(f).c_str());
    Writer w[2];
    Reader rd[2];
    Rng r(s.seed());
    uint64_t version[5] = {0, 0, 0, 0, 0}; // changes of the files
    size_t ops = s.len(60), wrote = 0, got = 0;
    Log log{c};
    auto same = [&](const char* what, uint64_t a, uint64_t b) {
        if (a != b) fail(string(what) + ": in-memory " + str(a) + ", disk " + str(b));
    };
    auto writing = [&](int f) {
        return w[0].file == f or w[1].file == f;
    };
    auto open_on = [&](int f) {
        return writing(f) or rd[0].file == f or rd[1].file == f;
    };
    auto check_file = [&](int f) {
        bool ex = model.count(f);
        if (ram_fs::exists(ram(f)) != ex) fail(string("existence of in-memory file ") + NAMES[f]);
        if ((::access(disk(f).c_str(), F_OK) == 0) != ex) fail("harness: existence of the disk file");
        if (!ex) {
            same("size of a missing file", util::file_size(ram(f)), util::file_size(disk(f)));
            return;
        }
        string d = slurp_disk(disk(f));
        if (d != model[f]) fail("harness: disk content " + pbt::quoted(d) + " model " + pbt::quoted(model[f]));
        auto& v = ram_fs::content(ram(f));
        string m(v.begin(), v.end());
        if (m != d) fail(string("content of ") + NAMES[f] + ": in-memory " + pbt::quoted(m.substr(0, 200)) + " (" + str(m.size()) + "), disk " + pbt::quoted(d.substr(0, 200)) + " (" + str(d.size()) + ")");
        same("file_size", util::file_size(ram(f)), util::file_size(disk(f)));
        if (r.chance(1, 8)) { // read the whole file through a new stream
            isfstream a(ram(f), IN);
            string t((std::istreambuf_iterator<char>(a)), std::istreambuf_iterator<char>());
            if (t != d) fail("reading the whole file");
        }
    };
    auto close_writer = [&](Writer& x) {
        if (x.file < 0) return;
        int f = x.file;
        if (r.chance(1, 3)) { // closed by destruction
            x.ram.reset();
            x.disk.reset();
        } else {
            x.ram->close();
            x.disk->close();
            same("state after close", x.ram->rdstate(), x.disk->state(*x.ram));
            same("is_open after close", x.ram->is_open(), x.disk->is_open());
            if (r.chance(1, 6)) { // writing to a closed stream
                x.ram->write("xyz", 3);
                x.disk->os().write("xyz", 3);
                same("fail after writing to a closed stream", x.ram->fail(), x.disk->os().fail());
                x.ram->clear();
                x.disk->os().clear();
                x.ram->seekp(0);
                x.disk->seekp(0);
                same("fail after seeking in a closed stream", x.ram->fail(), x.disk->os().fail());
            }
            if (r.chance(1, 6)) {
                x.ram->close();
                x.disk->close();
                same("state after closing twice", x.ram->rdstate(), x.disk->state(*x.ram));
            }
        }
        x.file = -1;
        ++version[f];
        model[f] = slurp_disk(disk(f));
        check_file(f);
    };
    auto flush = [&](Writer& x) {
        x.ram->flush();
        x.disk->os().flush();
        same("state after flush", x.ram->rdstate(), x.disk->state(*x.ram));
        model[x.file] = slurp_disk(disk(x.file));
        ++version[x.file];
        check_file(x.file);
    };
    for (size_t o = 0; o < ops; ++o) {
        size_t op = s.pick({6, 6, 10, 8, 4, 3, 3, 2, 2, 2, 1, 1});
        Writer& x = w[s.u(1)];
        Reader& y = rd[s.u(1)];
        int f = s.u(4);
        log += " " + str(op) + (op < 2 or op > 5 ? string("(") + NAMES[f] + ")" : "");
        switch (op) {
            case 0: { // open for output
                int old = x.file;
                close_writer(x);
                (void)old;
                if (open_on(f) and !(rd[0].file == f or rd[1].file == f)) break; // one writer per file
                if (writing(f)) break;
                static const std::ios_base::openmode modes[] = {OUT, OUT | std::ios::trunc, OUT | std::ios::in, OUT | std::ios::app, OUT | std::ios::in | std::ios::ate, OUT | std::ios::in | std::ios::trunc, OUT | std::ios::app | std::ios::ate};
                int m = s.u(6);
                if (rd[0].file == f or rd[1].file == f) m = 2; // a file that is being read is only updated in place
                log += " mode " + str((uint64_t)m);
                x.ram.reset(new osfstream(ram(f), modes[m]));
                x.disk.reset(new DiskOut(disk(f), modes[m], s.b()));
                if (x.disk->b) c.label("compared with a standard stream");
                same("opening for output", x.ram->is_open(), x.disk->is_open());
                same("state after open", x.ram->rdstate(), x.disk->state(*x.ram));
                same("conversion of the stream", !!(void*)*x.ram, x.disk->is_open());
                if (!x.disk->is_open()) {
                    check_file(f);
                    break;
                }
                x.file = f;
                x.app = m == 3 or m == 6;
                x.touched = false;
                flush(x);
                if (m == 4) c.label("opened at the end");
                if (x.app) c.label("append");
                break;
            }
            case 1: { // open for input
                if (writing(f) and (w[0].file == f ? w[0] : w[1]).app) break;
                if (y.file >= 0 and s.b()) {
                    y.ram->close();
                    y.disk->close();
                    same("state after close of input", y.ram->rdstate(), y.disk->state(*y.ram));
                    if (r.chance(1, 4)) {
                        y.ram->seekg(0);
                        y.disk->seekg(0);
                        same("fail after seeking in a closed input stream", y.ram->fail(), y.disk->is().fail());
                        same("end of a closed stream", y.ram->get() == EOF, y.disk->is().get() == EOF);
                    }
                }
                if (writing(f)) flush(w[0].file == f ? w[0] : w[1]);
                auto mode = s.chance(1, 4) ? IN | std::ios::ate : IN;
                if (s.b() or !y.ram) {
                    y.ram.reset(new isfstream(ram(f), mode));
                    y.disk.reset(new DiskIn(disk(f), mode, s.b()));
                } else { // the same object again
                    same("result of open", !y.ram->open(ram(f), mode), !y.disk->open(disk(f), mode));
                }
                same("opening for input", y.ram->is_open(), y.disk->is_open());
                same("state after open for input", y.ram->rdstate(), y.disk->state(*y.ram));
                same("opening an existing file", y.ram->is_open(), model.count(f));
                y.file = y.ram->is_open() ? f : -1;
                y.seen = version[f];
                if (y.file >= 0) same("position after open", y.ram->tellg(), y.disk->tellg());
                break;
            }
            case 2: { // write
                if (x.file < 0) break;
                size_t k = s.b() ? 1 + s.u(20) : r.below(s.chance(1, 12) ? 40000 : 300);
                string t = bytes(r, k);
                int how = r.below(3);
                if (how == 0) {
                    x.ram->write(t.data(), k);
                    x.disk->os().write(t.data(), k);
                } else if (how == 1) {
                    for (char ch : t) x.ram->put(ch), x.disk->os().put(ch);
                } else {
                    *x.ram << t << 12345;
                    x.disk->os() << t << 12345;
                }
                x.touched = true;
                wrote += k;
                same("state after write", x.ram->rdstate(), x.disk->state(*x.ram));
                same("position after write", x.ram->tellp(), x.disk->tellp());
                break;
            }
            case 3: { // seek for output; beyond the end something has to be written
                if (x.file < 0 or x.app) break;
                flush(x);
                int64_t size = model[x.file].size(), p = r.chance(1, 3) ? r.below(5) : r.below(size + 1);
                int kind = s.u(7);
                bool past = false, base = r.chance(1, 4);
                auto seek = [&](int64_t off, std::ios_base::seekdir way) {
                    if (base) {
                        static_cast<std::ostream&>(*x.ram).seekp(off, way);
                        static_cast<std::ostream&>(*x.disk).seekp(off, way);
                    } else {
                        x.ram->seekp(off, way);
                        x.disk->seekp(off, way);
                    }
                };
                switch (kind) {
                    case 0: case 1: {
                        if (base) {
                            static_cast<std::ostream&>(*x.ram).seekp(p);
                            static_cast<std::ostream&>(*x.disk).seekp(p);
                        } else {
                            x.ram->seekp(p);
                            x.disk->seekp(p);
                        }
                        past = p > size;
                        break;
                    }
                    case 2: seek(p, std::ios::beg); past = p > size; break;
                    case 3: seek(-std::min(p, size), std::ios::end); break;
                    case 4: {
                        int64_t cur = x.disk->tellp(), d = (int64_t)r.below(9) - 4;
                        if (cur + d < 0) d = -cur;
                        seek(d, std::ios::cur);
                        past = cur + d > size;
                        break;
                    }
                    case 5: seek(r.below(70), std::ios::end); past = true; break;
                    case 6: seek(-size - 1 - (int64_t)r.below(4), std::ios::end); c.label("seek before the start"); break;
                    default: x.ram->seekp(-5); x.disk->seekp(-5); c.label("seek before the start");
                }
                log += " kind " + str((uint64_t)kind);
                same("fail after seekp", x.ram->fail(), x.disk->os().fail());
                x.ram->clear();
                x.disk->os().clear();
                same("position after seekp", x.ram->tellp(), x.disk->tellp());
                same("position after seekp (base class)", static_cast<std::ostream&>(*x.ram).tellp(), static_cast<std::ostream&>(*x.disk).tellp());
                if (past) {
                    string t = bytes(r, 1 + r.below(20));
                    x.ram->write(t.data(), t.size());
                    x.disk->os().write(t.data(), t.size());
                    c.label("written beyond the end");
                }
                break;
            }
            case 4: { // read
                if (y.file < 0) break;
                bool sync = writing(y.file);
                if (sync) {
                    Writer& z = w[0].file == y.file ? w[0] : w[1];
                    flush(z);
                    c.label("read while written");
                }
                sync = sync or y.seen != version[y.file]; // changed since: position again first
                y.seen = version[y.file];
                const string& m = model[y.file];
                if (sync or r.chance(1, 2)) {
                    y.ram->clear();
                    y.disk->is().clear();
                    int64_t p = r.below(m.size() + 1);
                    int kind = r.below(5);
                    bool base = r.chance(1, 4);
                    auto seek = [&](int64_t off, std::ios_base::seekdir way) {
                        if (base) {
                            static_cast<std::istream&>(*y.ram).seekg(off, way);
                            static_cast<std::istream&>(*y.disk).seekg(off, way);
                        } else {
                            y.ram->seekg(off, way);
                            y.disk->seekg(off, way);
                        }
                    };
                    if (kind == 0) {
                        y.ram->seekg(p);
                        y.disk->seekg(p);
                    } else if (kind == 1) seek(p, std::ios::beg);
                    else if (kind == 2) seek(-p, std::ios::end);
                    else if (kind == 3 and !sync) {
                        int64_t cur = y.disk->tellg();
                        seek(p - cur, std::ios::cur);
                    } else if (kind == 4 and r.chance(1, 3)) {
                        seek(-(int64_t)m.size() - 1, std::ios::end);
                        same("fail after seekg before the start", y.ram->fail(), y.disk->is().fail());
                        y.ram->clear();
                        y.disk->is().clear();
                        seek(0, std::ios::beg);
                    } else seek(p, std::ios::beg);
                    same("fail after seekg", y.ram->fail(), y.disk->is().fail());
                    same("position after seekg", y.ram->tellg(), y.disk->tellg());
                }
                size_t k = r.chance(1, 2) ? 1 + r.below(30) : r.below(m.size() + 10);
                string a(k, 'x'), b(k, 'x');
                int how = r.below(4);
                uint64_t ga = 0, gb = 0;
                if (how == 0) {
                    y.ram->read(&a[0], k);
                    y.disk->is().read(&b[0], k);
                    ga = y.ram->gcount();
                    gb = y.disk->is().gcount();
                } else if (how == 1) {
                    for (size_t i = 0; i < k; ++i) a[i] = y.ram->get(), b[i] = y.disk->is().get();
                } else if (how == 2) {
                    std::getline(*y.ram, a, 'e');
                    std::getline(y.disk->is(), b, 'e');
                } else {
                    uint64_t na = 0, nb = 0;
                    *y.ram >> na;
                    y.disk->is() >> nb;
                    same("number read", na, nb);
                }
                same("bytes read", ga, gb);
                if (a != b) fail("data read: in-memory " + pbt::quoted(a.substr(0, 100)) + ", disk " + pbt::quoted(b.substr(0, 100)));
                same("state after read", y.ram->rdstate(), y.disk->state(*y.ram));
                got += ga;
                if (!y.ram->good()) {
                    if (r.chance(1, 2)) {
                        y.ram->clear();
                        y.disk->is().clear();
                    } else y.file = -1;
                }
                if (y.file >= 0) same("position after read", y.ram->tellg(), y.disk->tellg());
                break;
            }
            case 5:
                if (x.file >= 0) flush(x);
                break;
            case 6:
                close_writer(x);
                break;
            case 7: { // remove
                if (open_on(f)) break;
                int a = sdsl::remove(ram(f)), b = sdsl::remove(disk(f));
                same("result of remove", a != 0, b != 0);
                same("result of remove of an existing file", a == 0, model.erase(f));
                check_file(f);
                break;
            }
            case 8: { // rename
                int g = s.u(4);
                if (open_on(f) or open_on(g)) break;
                int a = sdsl::rename(ram(f), ram(g)), b = sdsl::rename(disk(f), disk(g));
                same("result of rename", a != 0, b != 0);
                if (model.count(f) and f != g) {
                    model[g] = model[f];
                    model.erase(f);
                }
                check_file(f);
                check_file(g);
                break;
            }
            case 9: { // store a structure or raw content
                if (open_on(f)) break;
                if (s.b()) {
                    int_vector<> iv(r.below(200), 0, 1 + r.below(64));
                    for (auto z : iv) z = r.next();
                    bool a = store_to_file(iv, ram(f)), b = store_to_file(iv, disk(f));
                    same("store_to_file", a, b);
                    int_vector<> jv;
                    req(load_from_file(jv, ram(f)) and jv == iv, "loading a stored vector");
                } else {
                    string t = bytes(r, r.below(300));
                    ram_fs::store(ram(f), ram_fs::content_type(t.begin(), t.end()));
                    std::ofstream(disk(f), std::ios::binary) << t;
                }
                model[f] = slurp_disk(disk(f));
                check_file(f);
                break;
            }
            case 10: { // neither renaming from memory to disk nor back is possible
                if (open_on(f)) break;
                bool back = s.b();
                int a = back ? sdsl::rename(disk(f), ram(f)) : sdsl::rename(ram(f), disk(f));
                req(a != 0, "rename between memory and disk is refused");
                check_file(f);
                break;
            }
            default: { // a stream buffer over given memory
                string t = bytes(r, r.below(50));
                vector<char> v(t.begin(), t.end());
                ram_filebuf b(v);
                std::istream in(&b);
                string u((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
                if (u != t) fail("reading from given memory");
            }
        }
        for (int g = 0; g < 5; ++g) if (!writing(g)) check_file(g);
    }
    for (Writer& x : w) close_writer(x);
    for (Reader& y : rd) y.ram.reset(), y.disk.reset();
    for (int g = 0; g < 5; ++g) check_file(g);
    for (int f = 0; f < 5; ++f) ram_fs::remove(ram(f)), ::unlink(disk(f).c_str());
    if (got) c.label("data read");
    c.nt(wrote > 0 and ops > 3);
}
TARGET("names", 2000)
{
    Rng r(s.seed());
    string t;
    for (size_t n = s.u(12); n; --n) t += "ab./@-_ "[s.u(7)];
    c.nt(t.size() > 1);
    c.describe([&]() {
        return pbt::quoted(t);
    });
    bool is = t.size() and t[0] == '@';
    req(is_ram_file(t) == is, "is_ram_file");
    req(ram_file_name(t) == (is ? t : "@" + t), "ram_file_name");
    req(is_ram_file(ram_file_name(t)), "ram_file_name makes a name of an in-memory file");
    req(disk_file_name(t) == (is ? t.substr(1) : t), "disk_file_name");
    if (!is) req(disk_file_name(ram_file_name(t)) == t, "names there and back");
    string other = t + "x";
    ram_fs::store("@" + t, {'1', '2'});
    ram_fs::store("@" + other, {'3'});
    req(ram_fs::content("@" + t) == ram_fs::content_type({'1', '2'}) and ram_fs::file_size("@" + other) == 1, "contents of different names");
    ram_fs::remove("@" + t);
    req(!ram_fs::exists("@" + t) and ram_fs::exists("@" + other), "removing one name");
    ram_fs::remove("@" + other);
}
