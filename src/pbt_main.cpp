// Driver: runs targets in a forked worker, detects failures, crashes and hangs,
// shrinks the tape and confirms it in fresh processes.
#include "pbt.hpp"
#include <chrono>
#include <csignal>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>
#include <sstream>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_ASAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define PBT_ASAN 1
#endif

#ifdef PBT_ASAN
// detect_leaks needs ptrace, which a sandbox may not allow. The rss limit turns runaway memory into a crash.
extern "C" const char* __asan_default_options()
{
    return "detect_leaks=0:abort_on_error=0:exitcode=66:hard_rss_limit_mb=3500:allocator_may_return_null=1:"
           "max_allocation_size_mb=3000:detect_stack_use_after_return=0:malloc_context_size=8:"
           "max_malloc_fill_size=1048576:malloc_fill_byte=190:quarantine_size_mb=16:handle_abort=0:color=never";
}
#endif

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
extern "C" const char* __tsan_default_options()
{
    return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:report_thread_leaks=0:report_destroy_locked=0:memory_limit_mb=0:color=never:history_size=4";
}
#endif
#endif

using namespace std;
namespace pbt
{
static string g_scratch;
static string g_scratch_base;

void fail(string msg)
{
    throw Fail{move(msg)};
}
void eq_fail(uint64_t got, uint64_t want, const char* what, uint64_t a, uint64_t b, uint64_t c)
{
    fail(string(what) + ": got " + str(got) + " want " + str(want) + " (at " + str(a) + "," + str(b) + "," + str(c) + ")");
}

static void rm_rf(const string& dir)
{
    if (dir.empty()) return;
    if (DIR* d = opendir(dir.c_str())) {
        while (dirent* e = readdir(d)) {
            string n = e->d_name;
            if (n == "." or n == "..") continue;
            string p = dir + "/" + n;
            struct stat st;
            if (lstat(p.c_str(), &st) == 0 and S_ISDIR(st.st_mode)) rm_rf(p);
            else unlink(p.c_str());
        }
        closedir(d);
        rmdir(dir.c_str());
    }
}

const string& scratch()
{
    if (g_scratch.empty()) {
        string t = g_scratch_base + "/w" + str(getpid());
        mkdir(t.c_str(), 0700);
        g_scratch = t;
    }
    return g_scratch;
}

static const size_t TAPE_CAP = 1 << 20;
struct Shared {
    volatile uint64_t target, case_no, done;
    size_t tape_len;
    volatile int status; // 0 running, 1 ok/complete, 2 failed (msg)
    char msg[4000];
    char sample[4000];
    uint8_t tape[TAPE_CAP];
};
static Shared* g_sh;

static uint64_t fnv(const uint8_t* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    for (size_t i = 0; i < n; ++i) {
        h ^= p[i];
        h *= 1099511628211ULL;
    }
    return h;
}
static uint64_t case_seed(uint64_t seed, const string& name, uint64_t no)
{
    uint64_t s = seed * 0x9E3779B97F4A7C15ULL + fnv((const uint8_t*)name.data(), name.size());
    splitmix(s);
    s ^= no * 0xD1342543DE82EF95ULL;
    splitmix(s);
    return splitmix(s);
}

static unsigned g_case_cpu = 40; // CPU seconds a single case may take before it counts as a hang
static void on_prof(int)
{
    const char m[] = "case exceeded its CPU limit (does not terminate)";
    memcpy(g_sh->msg, m, sizeof m);
    g_sh->status = 2;
    _exit(77);
}
static void arm(unsigned s)
{
    itimerval t = {{0, 0}, {(time_t)s, 0}};
    setitimer(ITIMER_PROF, &t, nullptr);
}
static void set_msg(const string& m)
{
    strncpy(g_sh->msg, m.c_str(), sizeof g_sh->msg - 1);
}

// Runs one case in this process. Returns true when it held.
static bool run_case(const Target& t, Src& src, Ctx& ctx)
{
    try {
        t.fn(src, ctx);
        return true;
    } catch (Fail& f) {
        set_msg(f.msg);
    } catch (std::exception& e) {
        set_msg(string("unexpected exception: ") + e.what());
    } catch (...) {
        set_msg("unexpected exception of unknown type");
    }
    strncpy(g_sh->sample, ctx.sample.c_str(), sizeof g_sh->sample - 1);
    return false;
}

struct Stat {
    uint64_t cases = 0, nontrivial = 0;
    unordered_set<uint64_t> distinct;
    map<string, uint64_t> labels;
    vector<string> samples;
    double cpu = 0, worst = 0;
};

static double cpu_now()
{
    rusage r;
    getrusage(RUSAGE_SELF, &r);
    return r.ru_utime.tv_sec + r.ru_stime.tv_sec + (r.ru_utime.tv_usec + r.ru_stime.tv_usec) * 1e-6;
}
static double wall_now()
{
    return chrono::duration<double>(chrono::steady_clock::now().time_since_epoch()).count();
}
static string jstr(const string& s)
{
    string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' or c == '\\') {
            r += '\\';
            r += c;
        } else if (c < 32 or c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else r += c;
    }
    return r + "\"";
}

static bool g_quiet_children = false;
// status: 0 held, 1 failed (assertion/exception), 2 crashed, 3 hang
struct Outcome {
    int kind;
    string msg, sample, err;
};
// fork, run `body` in the child, classify how it ended
static Outcome guarded(const function<void()>& body, const string& errfile)
{
    g_sh->status = 0;
    g_sh->msg[0] = 0;
    g_sh->sample[0] = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
        g_scratch.clear();
        if (!errfile.empty()) {
            int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            if (fd >= 0) {
                dup2(fd, 2);
                dup2(fd, 1);
            }
        }
        rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
        struct sigaction sa;
        memset(&sa, 0, sizeof sa);
        sa.sa_handler = on_prof;
        sigaction(SIGPROF, &sa, nullptr);
        body();
        rm_rf(g_scratch);
        g_sh->status = g_sh->status == 2 ? 2 : 1;
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 and errno == EINTR) {}
    rm_rf(g_scratch_base + "/w" + str(pid));
    Outcome o;
    o.msg = g_sh->msg;
    o.sample = g_sh->sample;
    if (WIFEXITED(st) and WEXITSTATUS(st) == 0 and g_sh->status == 1) o.kind = 0;
    else if (WIFEXITED(st) and WEXITSTATUS(st) == 77) o.kind = 3;
    else if (WIFEXITED(st) and WEXITSTATUS(st) == 0 and g_sh->status == 2) o.kind = 1;
    else {
        o.kind = 2;
        string how = WIFSIGNALED(st) ? "killed by signal " + str(WTERMSIG(st)) : "exit status " + str(WEXITSTATUS(st));
        o.msg = "crash: " + how;
    }
    if (o.kind == 2 and !errfile.empty()) {
        ifstream in(errfile);
        string line;
        int kept = 0;
        while (getline(in, line) and kept < 14) {
            if (line.find("ERROR") != string::npos or line.find("WARNING: ThreadSanitizer") != string::npos or line.find("    #") == 0 or line.find("terminate") != string::npos
                or line.find("what()") != string::npos or line.find("Assertion") != string::npos
                or line.find("rss limit") != string::npos) {
                if (line.size() > 220) line.resize(220);
                o.err += line + "\n";
                ++kept;
            }
        }
        if (o.err.size()) {
            o.msg += " | " + o.err.substr(0, o.err.find('\n'));
        }
    }
    return o;
}

static Outcome try_tape(const Target& t, const vector<uint8_t>& tape, const string& errfile, bool sample = true)
{
    return guarded([&] {
        memcpy(g_sh->tape, tape.data(), tape.size());
        g_sh->tape_len = tape.size();
        Src src(g_sh->tape, tape.size(), TAPE_CAP, false, 0);
        Ctx ctx;
        ctx.want_sample = sample;
        ctx.replaying = true;
        ctx.mirror = g_sh->sample;
        arm(g_case_cpu);
        if (!run_case(t, src, ctx)) g_sh->status = 2;
        else strncpy(g_sh->sample, ctx.sample.c_str(), sizeof g_sh->sample - 1);
        arm(0);
    }, errfile);
}

static vector<uint8_t> shrink(const Target& t, vector<uint8_t> tape, Outcome& best, const string& errfile, double budget)
{
    double end = wall_now() + budget;
    unsigned tries = 0;
    auto attempt = [&](const vector<uint8_t>& cand) {
        if (wall_now() > end or tries > 4000) return false;
        ++tries;
        Outcome o = try_tape(t, cand, errfile);
        if (o.kind) {
            best = o;
            tape = cand;
            return true;
        }
        return false;
    };
    if (best.kind == 3) return tape; // every attempt at a hang would cost its full limit
    bool progress = true;
    while (progress and wall_now() < end) {
        progress = false;
        while (!tape.empty() and tape.back() == 0) tape.pop_back(); // implied zeros
        // cut the tail
        for (size_t keep = 0; keep < tape.size(); keep = keep ? keep * 2 : 1) {
            vector<uint8_t> c(tape.begin(), tape.begin() + keep);
            if (attempt(c)) {
                progress = true;
                break;
            }
        }
        // delete chunks
        for (size_t k = 1024; k >= 1 and wall_now() < end; k /= 2) {
            for (size_t i = 0; i + k <= tape.size();) {
                vector<uint8_t> c(tape);
                c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) progress = true;
                else i += k;
                if (wall_now() > end) break;
            }
        }
        // zero chunks
        for (size_t k = 64; k >= 1 and wall_now() < end; k /= 2) {
            for (size_t i = 0; i + k <= tape.size(); i += k) {
                bool any = false;
                for (size_t j = i; j < i + k; ++j) any |= tape[j] != 0;
                if (!any) continue;
                vector<uint8_t> c(tape);
                for (size_t j = i; j < i + k; ++j) c[j] = 0;
                if (attempt(c)) progress = true;
                if (wall_now() > end) break;
            }
        }
        // lower bytes
        for (size_t i = 0; i < tape.size() and wall_now() < end; ++i) {
            uint8_t lo = 0, hi = tape[i];
            while (lo < hi) {
                uint8_t mid = lo + (hi - lo) / 2;
                vector<uint8_t> c(tape);
                c[i] = mid;
                if (attempt(c)) {
                    hi = mid;
                    progress = true;
                } else lo = mid + 1;
                if (wall_now() > end) break;
            }
        }
    }
    return tape;
}
} // namespace pbt

using namespace pbt;

static string tohex(const vector<uint8_t>& v)
{
    static const char* d = "0123456789abcdef";
    string r;
    for (auto b : v) {
        r += d[b >> 4];
        r += d[b & 15];
    }
    return r;
}
static vector<uint8_t> fromhex(const string& s)
{
    vector<uint8_t> v;
    for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back(stoi(s.substr(i, 2), nullptr, 16));
    return v;
}

#ifndef PBT_FUZZ
int main(int argc, char** argv)
{
    map<string, string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, uint64_t d) {
        return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d;
    };
    auto& ts = targets();
    if (a.count("--list")) {
        for (auto& t : ts) printf("%s %u\n", t.name.c_str(), t.weight);
        return 0;
    }
    g_scratch_base = a.count("--scratch") ? a["--scratch"] : string("/tmp");
    g_case_cpu = num("--case-cpu", 40);
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    string errfile = g_scratch_base + "/err" + str(getpid());
    string only = a["--only"];

    if (a.count("--replay-tape") or a.count("--replay-slice")) {
        // exit 0: held; 1: failed
        Outcome o;
        if (a.count("--replay-tape")) {
            const Target* t = nullptr;
            for (auto& x : ts) if (x.name == a["--target"]) t = &x;
            if (!t) {
                printf("no such target\n");
                return 2;
            }
            auto tape = fromhex(a["--replay-tape"] == "-" ? string() : a["--replay-tape"]);
            if (a.count("--shrink")) { // used for tapes found by libFuzzer
                o = try_tape(*t, tape, errfile);
                if (o.kind) tape = shrink(*t, tape, o, errfile, num("--shrink", 60));
                printf("{\"target\":%s,\"tape\":%s,\"kind\":%d,\"msg\":%s,\"sample\":%s,\"trace\":%s}\n", jstr(t->name).c_str(),
                       jstr(tohex(tape)).c_str(), o.kind, jstr(o.msg).c_str(), jstr(o.sample).c_str(), jstr(o.err).c_str());
                unlink(errfile.c_str());
                return o.kind ? 1 : 0;
            }
            o = try_tape(*t, tape, errfile);
        }
        unlink(errfile.c_str());
        printf("%s\n%s\n%s%s\n", o.kind ? "FAILS" : "HOLDS", o.sample.c_str(), o.msg.c_str(), o.err.empty() ? "" : ("\n" + o.err).c_str());
        return o.kind ? 1 : 0;
    }

    uint64_t seed = num("--seed", 1), shard = num("--shard", 0), nshards = num("--nshards", 1);
    uint64_t scale = num("--scale", 100); // percent
    double deadline = wall_now() + num("--deadline", 600);
    // stop at (target, case) when re-running a slice
    int64_t stop_t = a.count("--stop-target") ? (int64_t)num("--stop-target", 0) : -1;
    uint64_t stop_c = num("--stop-case", 0);
    vector<Stat> stats(ts.size());
    bool truncated = false;
    string resfile = g_scratch_base + "/res" + str(getpid());

    auto slice = [&] {
        for (size_t ti = 0; ti < ts.size(); ++ti) {
            const Target& t = ts[ti];
            if (!only.empty() and t.name.find(only) == string::npos) continue;
            uint64_t n = max<uint64_t>(1, t.weight * scale / 100);
            Stat& st = stats[ti];
            double c0 = cpu_now();
            for (uint64_t no = shard; no < n; no += nshards) {
                if (wall_now() > deadline) {
                    truncated = true;
                    break;
                }
                g_sh->target = ti;
                g_sh->case_no = no;
                g_sh->tape_len = 0;
                Src src(g_sh->tape, 0, TAPE_CAP, true, case_seed(seed, t.name, no));
                src.len_out = &g_sh->tape_len;
                Ctx ctx;
                ctx.want_sample = st.samples.size() < 2 and (no / nshards) % 7 == 3;
                double w0 = wall_now();
                arm(g_case_cpu);
                bool ok = run_case(t, src, ctx);
                arm(0);
                if (!ok) {
                    g_sh->status = 2;
                    return;
                }
                double w = wall_now() - w0;
                if (w > st.worst) st.worst = w;
                ++st.cases;
                if (ctx.nontrivial) {
                    ++st.nontrivial;
                    if (st.distinct.insert(fnv(g_sh->tape, g_sh->tape_len)).second and !ctx.sample.empty())
                        st.samples.push_back(ctx.sample);
                }
                for (auto& l : ctx.labels) ++st.labels[l];
                if ((int64_t)ti == stop_t and no == stop_c) return;
            }
            st.cpu = cpu_now() - c0;
        }
        // statistics
        ofstream out(resfile);
        out << "{\"truncated\":" << (truncated ? "true" : "false") << ",\"targets\":[";
        bool first = true;
        for (size_t ti = 0; ti < ts.size(); ++ti) {
            auto& st = stats[ti];
            if (!st.cases) continue;
            out << (first ? "" : ",") << "{\"name\":" << jstr(ts[ti].name) << ",\"cases\":" << st.cases << ",\"nontrivial\":" << st.nontrivial
                << ",\"distinct\":" << st.distinct.size() << ",\"cpu\":" << st.cpu << ",\"worst\":" << st.worst << ",\"labels\":{";
            first = false;
            bool f2 = true;
            for (auto& l : st.labels) {
                out << (f2 ? "" : ",") << jstr(l.first) << ":" << l.second;
                f2 = false;
            }
            out << "},\"samples\":[";
            for (size_t i = 0; i < st.samples.size(); ++i) out << (i ? "," : "") << jstr(st.samples[i]);
            out << "]}";
        }
        out << "]}";
    };

    Outcome o = guarded(slice, errfile);
    if (stop_t >= 0) {
        unlink(errfile.c_str());
        unlink(resfile.c_str());
        printf("%s\n%s\n", o.kind ? "FAILS" : "HOLDS", o.msg.c_str());
        return o.kind ? 1 : 0;
    }
    string result;
    if (o.kind == 0) {
        ifstream in(resfile);
        stringstream ss;
        ss << in.rdbuf();
        result = "{\"ok\":true,\"stats\":" + ss.str() + "}";
    } else {
        size_t ti = g_sh->target;
        uint64_t no = g_sh->case_no;
        vector<uint8_t> tape(g_sh->tape, g_sh->tape + g_sh->tape_len);
        const Target& t = ts[ti];
        string mode = "tape";
        Outcome first = o;
        // does the case fail on its own?
        Outcome alone = try_tape(t, tape, errfile);
        if (alone.kind) {
            o = alone;
            tape = shrink(t, tape, o, errfile, num("--shrink", 25));
        } else mode = "slice";
        int again = 0;
        if (mode == "tape") {
            for (int i = 0; i < 3; ++i) again += try_tape(t, tape, errfile).kind != 0;
        } else {
            stop_t = ti;
            stop_c = no;
            for (int i = 0; i < 3; ++i) again += guarded(slice, errfile).kind != 0;
        }
        result = "{\"ok\":false,\"mode\":" + jstr(mode) + ",\"target\":" + jstr(t.name) + ",\"target_idx\":" + str(ti) + ",\"case\":" + str(no)
                 + ",\"seed\":" + str(seed) + ",\"shard\":" + str(shard) + ",\"nshards\":" + str(nshards) + ",\"scale\":" + str(scale) + ",\"only\":" + jstr(only)
                 + ",\"kind\":" + str(o.kind ? o.kind : first.kind) + ",\"confirmed\":" + str(again) + ",\"msg\":" + jstr(mode == "tape" ? o.msg : first.msg) + ",\"sample\":" + jstr(o.sample)
                 + ",\"trace\":" + jstr(mode == "tape" ? o.err : first.err) + ",\"tape\":" + jstr(tohex(tape)) + "}";
    }
    unlink(resfile.c_str());
    unlink(errfile.c_str());
    if (a.count("--out")) ofstream(a["--out"]) << result << "\n";
    else cout << result << endl;
    return o.kind ? 1 : 0;
}
#else
// libFuzzer entry: the input is the tape; the target is fixed by the environment.
static const Target* g_t = nullptr;
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size)
{
    if (!g_t) {
        const char* n = getenv("PBT_TARGET");
        for (auto& t : targets()) if (!n or t.name == n) {
                g_t = &t;
                break;
            }
        if (!g_t) abort();
        const char* sc = getenv("PBT_SCRATCH");
        g_scratch_base = sc ? sc : "/tmp";
        g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    }
    if (size > 65536) return 0;
    memcpy(g_sh->tape, data, size);
    Src src(g_sh->tape, size, TAPE_CAP, false, 0);
    Ctx ctx;
    if (!run_case(*g_t, src, ctx)) {
        fprintf(stderr, "PBT-FAIL %s: %s\n", g_t->name.c_str(), g_sh->msg);
        abort();
    }
    return 0;
}
#endif
