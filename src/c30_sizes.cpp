// C30: the sizes the library reports are the sizes that are written; the structure tree accounts for every byte once.
#include "values.hpp"
#include <sdsl/io.hpp>
#include <sdsl/structure_tree.hpp>
#include <sdsl/ram_fs.hpp>
#include <fstream>
#include <map>

namespace
{
// ---- the structure tree and what was printed of it
struct Node {
    string type, name;
    uint64_t size = 0;
    std::multimap<string, Node> ch; // by name and type
    bool operator==(const Node& o) const { return type == o.type and name == o.name and size == o.size and ch == o.ch; }
};
Node copy_of(const structure_tree_node& v)
{
    Node x;
    x.type = v.type;
    x.name = v.name;
    x.size = v.size;
    for (auto& c : v.children) {
        Node y = copy_of(*c.second);
        x.ch.insert({y.name + '\0' + y.type, y});
    }
    return x;
}
struct Json { // the subset the library writes: objects, arrays, strings
    const string& s;
    size_t i = 0;
    Json(const string& t) : s(t) {}
    void bad(const string& what) { fail("JSON: " + what + " at " + str((uint64_t)i) + ": ..." + s.substr(i > 60 ? i - 60 : 0, 120)); }
    char peek()
    {
        while (i < s.size() and (s[i] == ' ' or s[i] == '\t' or s[i] == '\n' or s[i] == '\r')) ++i;
        return i < s.size() ? s[i] : 0;
    }
    void want(char c)
    {
        if (peek() != c) bad(string("expected ") + c);
        ++i;
    }
    string text()
    {
        want('"');
        string r;
        while (i < s.size() and s[i] != '"') {
            if ((unsigned char)s[i] < 32 or s[i] == '\\') bad("character that has to be escaped");
            r += s[i++];
        }
        want('"');
        return r;
    }
    Node node()
    {
        Node x;
        bool type = false, name = false, size = false, kids = false;
        want('{');
        do {
            if (peek() == '}' and !type) break;
            string key = text();
            want(':');
            if (key == "children") {
                if (kids) bad("children twice");
                kids = true;
                want('[');
                do {
                    Node y = node();
                    x.ch.insert({y.name + '\0' + y.type, y});
                } while (peek() == ',' and ++i);
                want(']');
            } else if (key == "size") {
                if (size) bad("size twice");
                size = true;
                bool quoted = peek() == '"';
                string v;
                if (quoted) v = text();
                else while (isdigit((unsigned char)peek())) v += s[i++];
                if (v.empty() or v.find_first_not_of("0123456789") != string::npos) bad("size is no number");
                x.size = std::stoull(v);
            } else if (key == "name" and !name) {
                name = true;
                x.name = text();
            } else if (key == "class_name" and !type) {
                type = true;
                x.type = text();
            } else bad("key " + key);
        } while (peek() == ',' and ++i);
        want('}');
        if (!type or !name or !size) bad("incomplete object");
        return x;
    }
};
Node parse(const string& t)
{
    Json j(t);
    Node x = j.node();
    if (j.peek() != 0) j.bad("something behind the object");
    return x;
}
string show(const Node& x) { return x.name + ":" + x.type.substr(0, 60) + "(" + str(x.size) + ")"; }
size_t well_formed(const Node& x, const string& path, string* log = nullptr)
{
    uint64_t sum = 0;
    size_t n = 1;
    for (auto& c : x.ch) {
        sum += c.second.size;
        n += well_formed(c.second, path + "/" + c.second.name, log);
        if (c.second.type.empty()) fail("component without type in " + path);
    }
    if (sum > x.size) {
        string kids;
        for (auto& c : x.ch) kids += " " + show(c.second);
        fail("the components of " + path + " " + show(x) + " are larger than it: " + str(sum) + ":" + kids);
    }
    return n;
}
// the only child of the dummy root
Node tree_of(std::function<uint64_t(std::ostream&, structure_tree_node*)> write, uint64_t& returned, uint64_t& bytes)
{
    structure_tree_node root("root", "type");
    std::stringstream o;
    returned = write(o, &root);
    bytes = o.str().size();
    if (root.children.size() != 1) {
        string kids;
        for (auto& c : root.children) kids += " " + show(copy_of(*c.second));
        fail("the structure made " + str((uint64_t)root.children.size()) + " nodes instead of one:" + kids);
    }
    return copy_of(*root.children.begin()->second);
}
string between(const string& s, const string& a, const string& b)
{
    size_t i = s.find(a);
    if (i == string::npos) fail("HTML without " + a);
    size_t j = s.find(b, i + a.size());
    if (j == string::npos) fail("HTML without " + b + " behind " + a);
    return s.substr(i + a.size(), j - i - a.size());
}
void html(const string& h, const Node& want)
{
    Node x = parse(between(h, "var spaceJSON = ", ";"));
    if (!(x == want)) fail("the HTML shows another tree: " + show(x) + " instead of " + show(want));
    std::map<string, int> open;
    vector<string> st; // the tags match
    for (size_t i = 0; i < h.size(); ++i) {
        if (!st.empty() and st.back() == "script") {
            if (h.compare(i, 9, "</script>") != 0) continue;
        } else if (h[i] != '<') continue;
        size_t e = h.find('>', i);
        if (e == string::npos) fail("HTML: unfinished tag");
        string tag = h.substr(i + 1, e - i - 1);
        i = e;
        if (tag[0] == '!' or tag.back() == '/' or tag.compare(0, 4, "meta") == 0) continue; // needs no end
        if (tag[0] == '/') {
            if (st.empty() or st.back() != tag.substr(1)) fail("HTML: unexpected <" + tag + ">");
            st.pop_back();
        } else st.push_back(tag.substr(0, tag.find(' ')));
    }
    if (!st.empty()) fail("HTML: <" + st.back() + "> is not closed");
}
// a public member is a node below its structure, with the size it reports itself
template<class M> void member(const M& m, const Node& x, const char* name)
{
    uint64_t n = size_in_bytes(m);
    string type = util::class_name(m);
    bool any = false;
    for (auto& c : x.ch)
        if (c.second.type == type) {
            if (c.second.size == n) return;
            any = true;
        }
    if (any) fail(string("component ") + name + " of " + str(n) + " bytes has another size in the tree");
}
#define MEMBER(m) \
    template<class T> auto m_##m(const T& t, const Node& x, int) -> decltype(t.m.serialize(std::cout), void()) { member(t.m, x, #m); } \
    template<class T> void m_##m(const T&, const Node&, long) {}
MEMBER(csa) MEMBER(lcp) MEMBER(bp_support) MEMBER(bp) MEMBER(wavelet_tree) MEMBER(bv) MEMBER(sa_sample) MEMBER(isa_sample) MEMBER(tree)
template<class T> void members(const T& t, const Node& x)
{
    m_csa(t, x, 0);
    m_lcp(t, x, 0);
    m_bp_support(t, x, 0);
    m_bp(t, x, 0);
    m_wavelet_tree(t, x, 0);
    m_bv(t, x, 0);
    m_sa_sample(t, x, 0);
    m_isa_sample(t, x, 0);
    m_tree(t, x, 0);
}
template<class T> void all(const T& t, Src& s, Ctx& c)
{
    uint64_t w, bytes;
    string nm = s.b() ? "" : "some name";
    Node x = tree_of([&](std::ostream& o, structure_tree_node* v) { return sdsl::serialize(t, o, v, nm); }, w, bytes);
    eq(w, bytes, "bytes written by serialize");
    eq((uint64_t)size_in_bytes(t), bytes, "size_in_bytes");
    if (size_in_mega_bytes(t) != bytes / 1048576.0) fail("size_in_mega_bytes: " + std::to_string(size_in_mega_bytes(t)) + " of " + str(bytes) + " bytes");
    eq(x.size, bytes, "size of the root in the structure tree");
    if (x.name != nm) fail("the node is called " + x.name);
    if (x.type != "With" and x.type != util::class_name(t)) fail("the node is of type " + x.type);
    size_t nodes = well_formed(x, "");
    members(t, x);
    // printed
    x.name = "";
    std::stringstream j, h;
    write_structure<JSON_FORMAT>(t, j);
    Node y = parse(j.str());
    if (!(x == y)) fail("JSON shows another tree: " + show(y) + " instead of " + show(x));
    write_structure<HTML_FORMAT>(t, h);
    html(h.str(), x);
    string f = scratch() + "c30";
    write_structure<JSON_FORMAT>(t, f);
    {
        std::ifstream in(f);
        string a((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        if (a != j.str()) fail("the JSON file differs from what is printed");
    }
    sdsl::remove(f);
    c.nt(nodes > 1 and bytes > 64);
    if (nodes > 8) c.label("more than eight nodes");
}
template<class Kit> void run(Src& s, Ctx& c, size_t max)
{
    typedef typename Kit::type T;
    bool filled = !s.chance(1, 6);
    val::Tape t(s.seed());
    std::unique_ptr<T> p = val::make<Kit>(filled, t.s, max);
    c.describe([&]() { return "an object of " + str((uint64_t)size_in_bytes(*p)) + " bytes"; });
    if (s.chance(1, 4)) { // the size that is written later
        std::stringstream io;
        sdsl::serialize(*p, io);
        p = val::make<Kit>(false, t.s, max);
        sdsl::load(*p, io);
    }
    switch (s.pick({6, 1, 1})) {
        case 0: return all(*p, s, c);
        case 1: { // a vector of structures
            vector<T> v;
            for (size_t k = s.u(3); k--;) v.push_back(*p);
            uint64_t w, bytes;
            if (v.empty()) return c.nt(false);
            Node x = tree_of([&](std::ostream& o, structure_tree_node* n) { return serialize_vector(v, o, n, "v"); }, w, bytes);
            eq(w, bytes, "bytes of a vector");
            eq(x.size, bytes, "size of a vector");
            eq(bytes, (uint64_t)v.size() * size_in_bytes(*p), "bytes of the elements");
            well_formed(x, "");
            c.nt(v.size() > 1);
            c.label("vector");
            return;
        }
        default: { // several structures in one picture
            std::stringstream j;
            const T& r = *p;
            const T q(r);
            write_structure<JSON_FORMAT>(j, r, q);
            Node y = parse(j.str());
            uint64_t n = size_in_bytes(*p);
            eq(y.size, 2 * n, "size of two structures");
            well_formed(y, "");
            std::stringstream h;
            write_structure<HTML_FORMAT>(h, r, q);
            html(h.str(), y);
            c.nt(n > 64);
            c.label("two structures");
            return;
        }
    }
}
}
#if PART == 4 or PART == 5
#define CASES 20
#elif PART == 2 or PART == 3
#define CASES 25
#else
#define CASES 50
#endif
#define X(name, max, kit) \
    TARGET(#name, CASES) { run<UNPAREN kit>(s, c, max); }
using namespace val;
VALUES(X)
#undef X
#if PART == 0
namespace
{
// structures made by a user: any names and types
struct Made {
    string name, type;
    size_t own = 0;
    vector<Made> ch;
    uint64_t serialize(std::ostream& out, structure_tree_node* v) const
    {
        structure_tree_node* child = structure_tree::add_child(v, name, type);
        uint64_t w = 0;
        for (auto& x : ch) w += x.serialize(out, child);
        for (size_t i = 0; i < own; ++i) w += write_member((uint8_t)i, out);
        structure_tree::add_size(child, w);
        return w;
    }
    void merge(Node& parent) const
    {
        Node* me = nullptr;
        for (auto& c : parent.ch)
            if (c.second.name == name and c.second.type == type) me = &c.second;
        if (!me) {
            Node x;
            x.name = name;
            x.type = type;
            me = &parent.ch.insert({name + '\0' + type, x})->second;
        }
        me->size += bytes();
        for (auto& x : ch) x.merge(*me);
    }
    uint64_t bytes() const
    {
        uint64_t w = own;
        for (auto& x : ch) w += x.bytes();
        return w;
    }
};
Made made(Src& s, size_t depth)
{
    static const char* word[] = {"", "a", "b", "ab", "ba", "bb", "abb", "[]", "vector<x>"};
    Made m;
    m.name = word[s.u(8)];
    m.type = word[1 + s.u(7)];
    m.own = s.len(20);
    if (depth) for (size_t k = s.u(4); k--;) m.ch.push_back(made(s, depth - 1));
    return m;
}
}
TARGET("made", 1500)
{
    Made m = made(s, 3);
    uint64_t w, bytes;
    Node x = tree_of([&](std::ostream& o, structure_tree_node* v) { return m.serialize(o, v); }, w, bytes);
    Node want;
    m.merge(want);
    Node& one = want.ch.begin()->second;
    eq(x.size, m.bytes(), "size of the root");
    c.describe([&]() { return "a structure of " + str(m.bytes()) + " bytes, expected root " + show(one); });
    well_formed(x, "");
    if (!(x == one)) fail("the tree differs: components of different name or type were put together");
    structure_tree_node root("root", "type");
    std::stringstream sink, j, h;
    m.serialize(sink, &root);
    write_structure_tree<JSON_FORMAT>(root.children.begin()->second.get(), j);
    if (!(parse(j.str()) == one)) fail("JSON shows another tree");
    write_structure_tree<HTML_FORMAT>(root.children.begin()->second.get(), h);
    html(h.str(), one);
    c.nt(m.ch.size() > 1);
}
TARGET("plain", 500)
{
    // integers, strings and vectors of plain data
    uint64_t w, bytes;
    size_t n = s.len(40);
    auto one = [&](const Node& x, uint64_t want) {
        eq(w, bytes, "bytes returned");
        eq(bytes, want, "bytes written");
        eq(x.size, bytes, "size in the tree");
        well_formed(x, "");
    };
    string t(n, 'x');
    vector<uint32_t> v(n, 7);
    uint64_t a = s.val(64);
    c.describe([&]() { return "length " + str((uint64_t)n); });
    one(tree_of([&](std::ostream& o, structure_tree_node* q) { return write_member(t, o, q, "s"); }, w, bytes), 8 + n);
    one(tree_of([&](std::ostream& o, structure_tree_node* q) { return write_member(a, o, q, "i"); }, w, bytes), 8);
    one(tree_of([&](std::ostream& o, structure_tree_node* q) { return sdsl::serialize(a, o, q, "i"); }, w, bytes), 8);
    one(tree_of([&](std::ostream& o, structure_tree_node* q) { return sdsl::serialize(v, o, q, "v"); }, w, bytes), 8 + 4 * n);
    eq((uint64_t)size_in_bytes(v), (uint64_t)(8 + 4 * n), "size_in_bytes of a vector");
    c.nt(n > 1);
}
#endif
