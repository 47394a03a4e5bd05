// C29: index construction gives one result on every route and cleans up. A history of constructions of different
// index types, over a few inputs, in one directory; every index is compared with the naive suffix structures, the
// directory with what the configurations hold.
#include "pbt.hpp"
#include "textgen.hpp"
#include <sdsl/suffix_arrays.hpp>
#include <sdsl/suffix_trees.hpp>
#include <sdsl/wavelet_trees.hpp>
#include <dirent.h>
#include <memory>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace sdsl;
using namespace pbt;
using std::vector;
using std::string;

namespace
{
string slurp(const string& f)
{
    if (is_ram_file(f)) {
        auto& c = ram_fs::content(f);
        return string(c.begin(), c.end());
    }
    std::ifstream in(f, std::ios::binary);
    return string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
bool there(const string& f) { return is_ram_file(f) ? ram_fs::exists(f) : ::access(f.c_str(), F_OK) == 0; }
void spit(const string& f, const string& b)
{
    if (is_ram_file(f)) {
        ram_fs::store(f, ram_fs::content_type(b.begin(), b.end()));
        return;
    }
    std::ofstream o(f, std::ios::binary | std::ios::trunc);
    o.write(b.data(), b.size());
}
std::set<string> files(const string& dir)
{
    std::set<string> r;
    DIR* d = opendir(dir.c_str());
    while (dirent* e = readdir(d))
        if (e->d_name[0] != '.') r.insert(dir + "/" + e->d_name);
    closedir(d);
    return r;
}
struct In { // working directory, back at the end
    char old[4096];
    In(const string& d)
    {
        if (!getcwd(old, sizeof old) or chdir(d.c_str())) abort();
    }
    ~In()
    {
        if (chdir(old)) abort();
    }
};

template<class T> struct is_byte { enum { value = T::alphabet_category::WIDTH == 8 }; };

// contents of an index against the model
template<class T> void same(const T& x, const TextModel& m, csa_tag)
{
    eq((uint64_t)x.size(), (uint64_t)m.n, "size()");
    for (size_t i = 0; i < m.n; ++i) eq((uint64_t)x[i], m.sa[i], "suffix array", i);
    for (size_t i = 0; i < m.n; ++i) eq((uint64_t)x.isa[i], m.isa[i], "inverse suffix array", i);
    for (size_t i = 0; i < m.n; ++i) eq((uint64_t)x.bwt[i], m.bwt[i], "BWT", i);
    for (size_t i = 0; i < m.n; ++i) eq((uint64_t)x.text[i], m.t[i], "text", i);
}
template<class T> void same(const T& x, const TextModel& m, lcp_tag)
{
    eq((uint64_t)x.size(), (uint64_t)m.n, "size()");
    for (size_t i = 0; i < m.n; ++i) eq((uint64_t)x[i], m.lcp[i], "LCP array", i);
}
template<class T> void same(const T& x, const TextModel& m, cst_tag)
{
    eq((uint64_t)x.size(), (uint64_t)m.n, "size()");
    for (size_t i = 0; i < m.n; ++i) eq((uint64_t)x.csa[i], m.sa[i], "suffix array", i);
    if (m.n == 1) return;
    for (size_t i = 0; i < m.n; ++i) eq((uint64_t)x.lcp[i], m.lcp[i], "LCP array", i);
    for (size_t i = 1; i < m.n; ++i) { // two neighbouring leaves meet at the depth of their LCP
        auto v = x.lca(x.select_leaf(i), x.select_leaf(i + 1));
        eq((uint64_t)x.depth(v), m.lcp[i], "string depth of the lca of neighbouring leaves", i);
    }
}
template<class T> void same(const T& x, const TextModel& m, wt_tag)
{
    eq((uint64_t)x.size(), (uint64_t)m.n - 1, "size()");
    for (size_t i = 0; i + 1 < m.n; ++i) eq((uint64_t)x[i], m.t[i], "sequence", i);
}

struct World {
    Ctx& c;
    Src& s;
    Log log;
    Rng r;
    bool byte;
    string dir, cwd;
    vector<vector<uint64_t>> text;
    vector<std::unique_ptr<TextModel>> model; // null: contains 0
    std::map<string, string> user;            // files of the user, must never change
    struct Cfg {
        std::unique_ptr<cache_config> c;
        size_t text;
        bool ram;
    };
    vector<Cfg> cfg;
    std::map<string, string> input_name;
    size_t built = 0, shared = 0;
    World(Src& s, Ctx& c, bool byte) : c(c), s(s), log{c}, r(s.seed()), byte(byte)
    {
        dir = scratch() + "/c29";
        cwd = scratch() + "/c29cwd";
        ::mkdir(dir.c_str(), 0700);
        ::mkdir(cwd.c_str(), 0700);
        for (auto& d : {dir, cwd})
            for (auto& f : files(d)) ::unlink(f.c_str());
        size_t k = 1 + s.u(1);
        for (size_t i = 0; i < k; ++i) text.push_back(byte ? byte_text(s, 200) : int_text(s, 150, s.b() ? bits::lo_set[s.in(1, 17)] : std::max<uint64_t>(1, s.val(17))));
        text.push_back({}); // the empty input
        {
            auto z = text[0]; // with the reserved symbol
            z.insert(z.begin() + s.u(z.size()), 0);
            text.push_back(z);
        }
        for (size_t i = 0; i < text.size(); ++i) {
            log += (byte ? text_str(text[i], true) : pbt::vec(text[i])) + " ";
            model.emplace_back(new TextModel());
            if (i + 1 < text.size()) model.back()->build(text[i]);
            else { // for wavelet trees only
                model.back()->t = text[i];
                model.back()->n = text[i].size() + 1;
            }
        }
        put(dir + "/note.txt", "keep me");
        put(dir + "/text_int", string(3, 0));
        put("@note", "keep me, too");
    }
    ~World()
    {
        for (auto& f : user)
            if (is_ram_file(f.first)) ram_fs::remove(f.first);
        for (auto& x : cfg)
            for (auto& f : x.c->file_map)
                if (is_ram_file(f.second)) ram_fs::remove(f.second);
    }
    void put(const string& f, const string& b)
    {
        spit(f, b);
        user[f] = b;
    }
    uint64_t max_sym(size_t t) const
    {
        uint64_t m = 0;
        for (auto x : text[t]) m = std::max(m, x);
        return m;
    }
    uint8_t format(size_t t, bool allow_serialized)
    {
        if (byte) return allow_serialized and s.chance(1, 3) ? 0 : 1;
        uint64_t m = max_sym(t);
        uint8_t f = (uint8_t[]) {0, 1, 2, 4, 8, 'd'}[s.u(5)];
        if (f == 1 and m > 0xFF) f = 2;
        if (f == 2 and m > 0xFFFF) f = 4;
        return f;
    }
    string raw(size_t t, uint8_t f)
    {
        string b;
        if (f == 'd') {
            for (auto x : text[t]) b += std::to_string(x) + (s.chance(1, 8) ? "\n" : " ");
            return b;
        }
        for (auto x : text[t])
            for (int k = 0; k < f; ++k) b += (char)(x >> (8 * k));
        return b;
    }
    // an input file of the user
    string input(size_t t, uint8_t f, bool ram)
    {
        string key = std::to_string(t) + "." + std::to_string(f) + (ram ? "r" : "d");
        auto it = input_name.find(key);
        if (it != input_name.end()) return it->second;
        string name;
        switch (s.u(2)) {
            case 0: name = ram ? "@in" + key : dir + "/in" + key; break;
            case 1: name = ram ? "@sub/in" + key : dir + "/text_" + key + ".sdsl"; break;
            default: name = ram ? "@/in" + key + ".txt" : dir + "/in" + key + ".txt";
        }
        if (f) spit(name, raw(t, f));
        else if (byte) store_to_file(fixed(t), name);
        else store_to_file(variable(t), name);
        user[name] = slurp(name);
        return input_name[key] = name;
    }
    int_vector<8> fixed(size_t t)
    {
        int_vector<8> v(text[t].size());
        for (size_t i = 0; i < v.size(); ++i) v[i] = text[t][i];
        return v;
    }
    int_vector<> variable(size_t t)
    {
        int_vector<> v(text[t].size(), 0, s.in(bits::hi(max_sym(t)) + 1, 64));
        for (size_t i = 0; i < v.size(); ++i) v[i] = text[t][i];
        return v;
    }
    // user files as they were; the directories hold nothing but them and what the configurations list
    void check()
    {
        for (auto& f : user) {
            if (!there(f.first)) fail("file of the user is gone: " + f.first);
            if (slurp(f.first) != f.second) fail("file of the user was changed: " + f.first);
        }
        std::set<string> want;
        for (auto& f : user)
            if (!is_ram_file(f.first)) want.insert(f.first);
        for (auto& x : cfg)
            for (auto& f : x.c->file_map) {
                if (!there(f.second)) fail("registered file does not exist: " + f.first + " " + f.second);
                if (!is_ram_file(f.second)) want.insert(f.second);
            }
        for (auto& f : files(dir))
            if (!want.count(f)) fail("file left behind: " + f);
        for (auto& f : files(cwd)) fail("file left behind in the working directory: " + f);
    }
    template<class T, class F> void attempt(T& idx, size_t t, bool zero_refused, F f)
    {
        bool refused = false;
        try {
            f();
        } catch (const std::logic_error& e) {
            refused = true;
            if (!zero_refused) fail(string("exception: ") + e.what());
        }
        if (zero_refused and !refused) fail("a text with the reserved symbol 0 is accepted");
        if (refused) c.label("zero refused");
        else {
            same(idx, *model[t], typename T::index_category());
            ++built;
        }
    }
    template<class T> void step(const char* name)
    {
        const bool wt = std::is_same<typename T::index_category, wt_tag>::value, lcp = std::is_same<typename T::index_category, lcp_tag>::value, cst = std::is_same<typename T::index_category, cst_tag>::value;
        size_t t = s.pick({10, 10, 2, 2});
        if (text.size() == 3) t = t <= 1 ? 0 : t - 1;
        bool zero = t + 1 == text.size();
        size_t route = s.pick({2, 2, 3, 7});
        if (zero and !wt) route = s.u(3);
        uint8_t f = format(t, !lcp);
        if (wt and byte and f == 0 and false) f = 1;
        bool refused = zero and !wt;
        construct_config::byte_algo_sa = s.chance(1, 5) ? SE_SAIS : LIBDIVSUFSORT;
        log += string(" ") + name + "(t" + std::to_string(t) + "," + (f == 'd' ? string("decimal") : std::to_string(f)) + (construct_config::byte_algo_sa == SE_SAIS ? ",se-sais" : "");
        T idx;
        uint64_t id0 = util::id();
        auto no_ram = [&](const vector<string>& dirs) {
            uint64_t id1 = util::id();
            const char* keys[] = {"text", "text_int", "sa", "bwt", "bwt_int", "isa", "psi", "lcp", "sample_char", "lcp_sml", "lcp_big"};
            for (uint64_t k = id0; k <= id1; ++k) {
                string id = util::to_string(util::pid()) + "_" + util::to_string(k);
                if (ram_fs::exists("@" + id)) fail("in-memory input file left behind: @" + id);
                for (auto& d : dirs) {
                    for (auto& key : keys)
                        if (ram_fs::exists(d + "/" + key + "_" + id + ".sdsl")) fail("in-memory file left behind: " + d + "/" + key + "_" + id + ".sdsl");
                    if (ram_fs::exists(d + "/" + id + ".sdsl")) fail("in-memory file left behind: " + d + "/" + id + ".sdsl");
                }
            }
        };
        switch (route) {
            case 0:
            case 1: {
                bool ram = route == 1;
                string in = input(t, f, ram);
                log += ram ? ",RAM file)" : ",file)";
                In w(cwd);
                attempt(idx, t, refused, [&]() { construct(idx, in, f); });
                no_ram({"@"});
                break;
            }
            case 2: {
                log += ",object)";
                In w(cwd);
                if (f == 0 and byte) attempt(idx, t, refused, [&]() { construct_im(idx, fixed(t), 0); });
                else if (f == 0) attempt(idx, t, refused, [&]() { construct_im(idx, variable(t), 0); });
                else {
                    string b = raw(t, f);
                    if (b.find('\0') == string::npos and s.chance(1, 4)) attempt(idx, t, refused, [&]() { construct_im(idx, b.c_str(), f); });
                    else attempt(idx, t, refused, [&]() { construct_im(idx, b, f); });
                }
                no_ram({"@"});
                break;
            }
            default: {
                bool ram_in = s.b();
                string in = input(t, f, ram_in);
                // a configuration for this text: an old one or a new one
                size_t k = cfg.size();
                if (s.chance(3, 4))
                    for (size_t i = 0; i < cfg.size(); ++i)
                        if (cfg[i].text == t) k = i;
                bool renewed = false;
                if (k == cfg.size()) {
                    Cfg n;
                    n.text = t;
                    n.ram = s.chance(1, 3);
                    string id = s.b() ? "" : "c29_" + std::to_string(k) + "_" + std::to_string(t);
                    n.c.reset(new cache_config(s.chance(1, 3), n.ram ? (s.b() ? "@" : "@sub") : dir, id));
                    cfg.push_back(std::move(n));
                } else {
                    shared += cfg[k].c->file_map.size() > 0;
                    if (s.chance(1, 4)) { // some intermediates are gone again
                        auto& fm = cfg[k].c->file_map;
                        bool base = false;
                        vector<string> gone;
                        for (auto& e : fm)
                            if (r.below(3) == 0) {
                                gone.push_back(e.first);
                                base = base or (e.first != "lcp" and e.first.compare(0, 4, "csa_") != 0);
                            }
                        if (base) // what a suffix array was built from is only needed as long as there is none
                            for (auto& e : fm)
                                if (e.first.compare(0, 4, "csa_") == 0) gone.push_back(e.first);
                        for (auto& g : gone)
                            if (fm.count(g)) {
                                sdsl::remove(fm[g]);
                                if (r.below(2)) fm.erase(g);
                                else renewed = true;
                            }
                    }
                    cfg[k].c->delete_files = s.chance(1, 4);
                }
                cache_config& cc = *cfg[k].c;
                log += string(",cache ") + std::to_string(k) + (cfg[k].ram ? " RAM" : "") + (cc.delete_files ? ",delete)" : ")");
                tMSS before = cc.file_map;
                bool same_id = !cc.delete_files and !before.empty() and s.chance(1, 4);
                if (same_id) { // a new configuration that finds the files of the old one
                    cache_config again(false, cc.dir, cc.id);
                    {
                        In w(cwd);
                        attempt(idx, t, refused, [&]() { construct(idx, in, again, f); });
                    }
                    cc.file_map.insert(again.file_map.begin(), again.file_map.end());
                } else {
                    In w(cwd);
                    attempt(idx, t, refused, [&]() { construct(idx, in, cc, f); });
                }
                (void)cst;
                if (renewed) // registered, deleted by us and not needed again
                    for (auto it = cc.file_map.begin(); it != cc.file_map.end();) it = there(it->second) ? std::next(it) : cc.file_map.erase(it);
                if (cc.delete_files and !wt) {
                    if (!cc.file_map.empty()) fail("files are still registered after deleting");
                    for (auto& e : before)
                        if (there(e.second)) fail("file not deleted: " + e.second);
                    if (cfg[k].ram)
                        for (auto key : {"text", "text_int", "sa", "bwt", "bwt_int", "isa", "psi", "lcp"}) {
                            string name = cc.dir + "/" + key + "_" + cc.id + ".sdsl";
                            if (there(name)) fail("in-memory file not deleted: " + name);
                        }
                }
                if (!refused and !cc.delete_files and !wt and cc.file_map.empty()) fail("no files are registered");
                no_ram({cfg[k].ram and cc.id.compare(0, 4, "c29_") ? "@none" : cc.dir});
            }
        }
        check();
    }
};
typedef void (World::*Step)(const char*);
struct Kind {
    const char* name;
    Step step;
    unsigned weight;
};
void history(Src& s, Ctx& c, bool byte, const vector<Kind>& kinds, size_t max)
{
    World w(s, c, byte);
    size_t ops = 1 + s.len(max);
    for (size_t i = 0; i < ops; ++i) {
        auto& k = kinds[s.u(kinds.size() - 1)];
        (w.*(k.step))(k.name);
    }
    construct_config::byte_algo_sa = LIBDIVSUFSORT;
    if (w.shared) c.label("intermediates from the cache");
    c.nt(w.built > 1);
}
#define K(NAME, ...) Kind{NAME, &World::step<__VA_ARGS__>, 1}
typedef csa_wt<wt_huff<>, 4, 8> cw;
typedef csa_sada<enc_vector<>, 8, 4> cs;
typedef csa_wt<wt_int<>, 4, 8, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>> cwi;
typedef csa_sada<enc_vector<>, 8, 4, sa_order_sa_sampling<>, isa_sampling<>, int_alphabet<>> csi;
typedef csa_wt<wt_huff<>, 3, 3, fuzzy_sa_sampling<>, fuzzy_isa_sampling_support<>> cf;
typedef csa_wt<wt_huff<>, 5, 5, text_order_sa_sampling<>, text_order_isa_sampling_support<>> ct;
}
#if PART == 0
TARGET("csa", 220)
{
    history(s, c, true, {K("csa_wt", cw), K("csa_sada", cs), K("csa_bitcompressed", csa_bitcompressed<>), K("csa_wt_fuzzy", cf), K("csa_wt_text_order", ct), K("lcp_dac", lcp_dac<>), K("lcp_wt", lcp_wt<>)}, 8);
}
TARGET("csa_int", 220)
{
    history(s, c, false, {K("csa_wt", cwi), K("csa_sada", csi), K("csa_bitcompressed", csa_bitcompressed<int_alphabet<>>), K("lcp_bitcompressed", lcp_bitcompressed<>), K("lcp_vlc", lcp_vlc<>)}, 8);
}
#elif PART == 1
TARGET("cst", 140)
{
    history(s, c, true, {K("cst_sct3", cst_sct3<cw>), K("cst_sada", cst_sada<cs>), K("cst_sct3_tree2", cst_sct3<cw, lcp_support_tree2<4>>), K("cst_sct3_sada", cst_sct3<cs, lcp_support_sada<>>), K("csa_sada", cs), K("csa_wt_fuzzy", cf), K("lcp_byte", lcp_byte<>)}, 6);
}
#elif PART == 2
TARGET("cst_int", 140)
{
    history(s, c, false, {K("cst_sct3", cst_sct3<cwi, lcp_bitcompressed<>>), K("cst_sada", cst_sada<cwi>), K("cst_sct3_tree", cst_sct3<csi, lcp_support_tree<>>), K("cst_sct3_sada", cst_sct3<csi, lcp_support_sada<>>), K("csa_sada", csi), K("lcp_wt", lcp_wt<>)}, 6);
}
#else
TARGET("wt", 200)
{
    history(s, c, true, {K("wt_huff", wt_huff<>), K("wt_blcd", wt_blcd<>), K("wt_hutu", wt_hutu<>), K("wt_rlmn", wt_rlmn<>)}, 12);
}
TARGET("wt_int", 250)
{
    history(s, c, false, {K("wt_int", wt_int<>), K("wm_int", wm_int<>), K("wt_huff_int", wt_huff_int<>), K("wt_ap", wt_ap<>), K("wt_gmr", wt_gmr<>), K("wt_gmr_rs", wt_gmr_rs<>), K("wt_rlmn_int", wt_rlmn<sd_vector<>, sd_vector<>::rank_1_type, sd_vector<>::select_1_type, wt_int<>>)}, 12);
}
#endif
