#!/usr/bin/env python3
"""Runs the property checks.  python3 run.py C07 | --setup | --replay FILE | --fuzz C07

Builds the harness units of a property from /repo's working tree (objects are cached by the hash of
the preprocessed source, so any change of the code is seen), runs them over generated cases on all
cores, and reports.  Exit 0: held on everything explored; exit 1 + VIOLATION line: broken."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

CXX = "clang++"
BASE = ["-std=c++14", "-O1", "-DNDEBUG", "-DMODE_TI", "-w", "-fno-omit-frame-pointer"]
ASAN = ["-fsanitize=address"]
INC = ["-I" + os.path.join(HERE, "src")]
NCPU = os.cpu_count() or 4
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def compile_obj(src, flags, tag, cxx=None):
    """Object file for `src`, cached by flags and preprocessed text."""
    cxx = cxx or CXX
    pre = sh([cxx] + flags + ["-E", "-P", src])
    if pre.returncode:
        raise BuildError("%s: %s" % (src, pre.stderr.decode(errors="replace")[-3000:]))
    h = hashlib.sha256()
    h.update(repr((cxx, [f for f in flags if not f.startswith("-I")])).encode())
    h.update(pre.stdout)
    obj = os.path.join(BUILD, "obj", "%s-%s.o" % (tag, h.hexdigest()[:24]))
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = "%s.%d.%d" % (obj, os.getpid(), threading.get_ident())
        r = sh([cxx] + flags + ["-c", src, "-o", tmp])
        if r.returncode:
            err = r.stderr.decode(errors="replace")
            raise BuildError("%s: %s" % (src, "\n".join([l for l in err.splitlines() if "error" in l][:12]) + "\n" + err[:1500]))
        os.replace(tmp, obj)
    else:
        try:
            os.utime(obj)
        except OSError:
            pass
    return obj


_lib_lock = threading.Lock()
_libs = {}


def lib_sources():
    """The library's translation units; structure_tree.cpp is produced from its template as the build does."""
    lib = os.path.join(REPO, "lib")
    out = []
    for f in sorted(os.listdir(lib)):
        if f.endswith(".cpp") and not os.path.exists(os.path.join(lib, f + ".cmake")):
            out.append(os.path.join(lib, f))
        elif f.endswith(".cpp.cmake"):
            with open(os.path.join(lib, f)) as fh:
                text = fh.read().replace("@PROJECT_SOURCE_DIR@", REPO)
            gen = os.path.join(BUILD, "gen", f[:-6])
            os.makedirs(os.path.dirname(gen), exist_ok=True)
            old = open(gen).read() if os.path.exists(gen) else None
            if old != text:
                tmp = "%s.%d" % (gen, os.getpid())
                with open(tmp, "w") as fh:
                    fh.write(text)
                os.replace(tmp, gen)
            out.append(gen)
    return out


def sanitizer(unit):
    return ["-fsanitize=%s" % unit["san"]] if unit.get("san") else ASAN


def flags_for(unit, fuzz=False):
    fl = list(BASE) + sanitizer(unit)
    if fuzz:
        fl += ["-fsanitize=fuzzer-no-link", "-DPBT_FUZZ"]
    fl += ["-I" + os.path.join(REPO, "include")] + INC + list(unit.get("flags", []))
    return fl


def build_unit(unit, pool, fuzz=False):
    """Returns a future-like callable producing the executable path."""
    common = flags_for(unit, fuzz)
    libflags = [f for f in common if not f.startswith("-DPART")]
    main = os.path.join(HERE, "src", "pbt_main.cpp")
    futs = [pool.submit(compile_obj, os.path.join(HERE, "src", unit["src"]), common,
                        unit["name"] + ("-fz" if fuzz else ""))]
    futs.append(pool.submit(compile_obj, main, libflags, "main"))
    if not unit.get("nolib"):
        for s in lib_sources():
            futs.append(pool.submit(compile_obj, s, libflags, "lib-" + os.path.basename(s)))
    if unit.get("extra"):
        for s in unit["extra"]:
            futs.append(pool.submit(compile_obj, os.path.join(HERE, "src", s), common, "x-" + s))

    def finish():
        objs = [f.result() for f in futs]
        h = hashlib.sha256("\n".join(objs).encode()).hexdigest()[:20]
        exe = os.path.join(BUILD, "exe", "%s%s-%s" % (unit["name"], "-fz" if fuzz else "", h))
        if not os.path.exists(exe):
            os.makedirs(os.path.dirname(exe), exist_ok=True)
            tmp = "%s.%d.%d" % (exe, os.getpid(), threading.get_ident())
            r = sh([CXX] + sanitizer(unit) + (["-fsanitize=fuzzer"] if fuzz else []) + objs +
                   ["-o", tmp, "-ldivsufsort", "-ldivsufsort64", "-lpthread"] + unit.get("ldflags", []))
            if r.returncode:
                raise BuildError("link %s: %s" % (unit["name"], r.stderr.decode(errors="replace")[-3000:]))
            os.replace(tmp, exe)
        else:
            try:
                os.utime(exe)
            except OSError:
                pass
        return exe
    return finish


def cpu_has(names):
    try:
        fl = set(re.search(r"^flags\s*:(.*)$", open("/proc/cpuinfo").read(), re.M).group(1).split())
    except Exception:
        return False
    return all(n in fl for n in names)


def prune(limit=6 << 30):
    items = []
    for d in ("obj", "exe"):
        p = os.path.join(BUILD, d)
        if os.path.isdir(p):
            for f in os.listdir(p):
                try:
                    st = os.stat(os.path.join(p, f))
                    items.append((st.st_mtime, st.st_size, os.path.join(p, f)))
                except OSError:
                    pass
    total = sum(i[1] for i in items)
    for _, sz, f in sorted(items):
        if total <= limit:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        total -= sz


def asan_env(sym=False):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "symbolize=%d" % (1 if sym else 0)
    e["TSAN_OPTIONS"] = e["ASAN_OPTIONS"]
    e.pop("LD_PRELOAD", None)
    return e


def known_findings(pid):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [k for k in json.load(open(f)).get("findings", []) if k["property"] == pid]


def run_shard(exe, unit, shard, nshards, scale, deadline, scratch, case_cpu):
    d = tempfile.mkdtemp(dir=scratch)
    out = os.path.join(d, "out.json")
    cmd = [exe, "--seed", str(SEED), "--shard", str(shard), "--nshards", str(nshards), "--scale", str(scale),
           "--deadline", str(int(max(5, deadline))), "--scratch", d, "--out", out, "--case-cpu", str(case_cpu)]
    if os.environ.get("VERIF_ONLY"):
        cmd += ["--only", os.environ["VERIF_ONLY"]]
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=asan_env(), cwd=d,
                         start_new_session=True)
    try:
        p.wait(timeout=deadline + 240)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
    try:
        res = json.load(open(out))
    except Exception:
        res = {"ok": None}
    res["unit"] = unit["name"]
    shutil.rmtree(d, ignore_errors=True)
    return res


def confirm(exe, res, scratch):
    """Re-runs a failing case in fresh processes; returns (times it failed, symbolized report)."""
    n, text = 0, ""
    for i in range(3):
        d = tempfile.mkdtemp(dir=scratch)
        if res["mode"] == "tape":
            cmd = [exe, "--target", res["target"], "--replay-tape", res["tape"] or "-", "--scratch", d]
        else:
            cmd = [exe, "--seed", str(res["seed"]), "--shard", str(res["shard"]), "--nshards", str(res["nshards"]),
                   "--scale", str(res["scale"]), "--stop-target", str(res["target_idx"]),
                   "--stop-case", str(res["case"]), "--scratch", d, "--deadline", "600"]
            if res.get("only"):
                cmd += ["--only", res["only"]]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=asan_env(i == 0), cwd=d, timeout=400)
            if r.returncode == 1:
                n += 1
                if i == 0 or not text:
                    text = r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            pass
        shutil.rmtree(d, ignore_errors=True)
    return n, text


def fuzz_unit(exe, fexe, unit, target, secs, scratch, seed):
    """libFuzzer on one target; a crash input is turned into a tape and confirmed with the normal build."""
    d = tempfile.mkdtemp(dir=scratch)
    corpus = os.path.join(d, "corpus")
    os.makedirs(corpus)
    rnd = random.Random(seed)
    for i in range(24):
        with open(os.path.join(corpus, "s%d" % i), "wb") as fh:
            fh.write(bytes(rnd.randrange(256) for _ in range(rnd.choice([8, 32, 96, 300, 1000]))))
    env = asan_env()
    env.update(PBT_TARGET=target, PBT_SCRATCH=d)
    log = os.path.join(d, "log")
    with open(log, "wb") as lf:
        p = subprocess.Popen([fexe, corpus, "-max_total_time=%d" % secs, "-seed=%d" % (seed % 2**31 or 1), "-max_len=4096",
                              "-timeout=60", "-rss_limit_mb=3000", "-artifact_prefix=" + d + "/crash-", "-print_final_stats=1", "-detect_leaks=0"],
                             stdout=lf, stderr=lf, env=env, cwd=d, start_new_session=True)
        try:
            p.wait(timeout=secs + 120)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
    text = open(log, errors="replace").read()
    m = re.search(r"stat::number_of_executed_units:\s*(\d+)", text)
    cov = re.findall(r"cov: (\d+)", text)
    res = {"target": target, "unit": unit["name"], "execs": int(m.group(1)) if m else 0, "cov": int(cov[-1]) if cov else 0, "fail": None}
    for f in sorted(os.listdir(d)):
        if f.startswith("crash-"):
            tape = open(os.path.join(d, f), "rb").read()
            r = subprocess.run([exe, "--target", target, "--replay-tape", tape.hex() or "-", "--shrink", "60", "--scratch", d],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=asan_env())
            try:
                j = json.loads(r.stdout.decode(errors="replace"))
            except Exception:
                continue
            if j["kind"]:
                j.update(mode="tape", unit=unit["name"], ok=False, confirmed=3)
                res["fail"] = j
                break
    shutil.rmtree(d, ignore_errors=True)
    return res


def check(pid):
    t0 = time.time()
    spec = CHECKS[pid]
    thorough = TIER == "thorough"
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % pid.lower(), dir="/tmp")
    budget = 1500 if thorough else 420
    scale = spec.get("thorough_scale", 1000) if thorough else spec.get("quick_scale", 100)
    scale = int(os.environ.get("VERIF_SCALE", scale))
    results, fuzz, skipped, failures = [], [], [], []
    try:
        prune()
        units = []
        for u in spec["units"]:
            if u.get("cpu") and not cpu_has(u["cpu"]):
                skipped.append(u["name"])
                continue
            units.append(u)
        exes = {}
        with cf.ThreadPoolExecutor(NCPU) as cpool, cf.ThreadPoolExecutor(NCPU) as rpool, cf.ThreadPoolExecutor(64) as wait:
            fins = {u["name"]: build_unit(u, cpool) for u in units}

            def go(u):
                exe = fins[u["name"]]()
                exes[u["name"]] = exe
                n = u.get("shards", NCPU)
                fs = []
                for k in range(n):
                    fs.append(rpool.submit(lambda k=k: run_shard(exe, u, k, n, scale, budget - (time.time() - t0), scratch,
                                                                 spec.get("case_cpu", 40))))
                return [f.result() for f in fs]
            for rs in [wait.submit(go, u) for u in units]:
                results += rs.result()
            for r in results:
                if r.get("ok") is False:
                    failures.append(r)
            if thorough and not failures and not os.environ.get("VERIF_NOFUZZ"):
                jobs = []
                ffin = [(u, build_unit(u, cpool, True)) for u in units if not u.get("nofuzz")]
                for u, f in ffin:
                    fexe = f()
                    names = [l.split()[0] for l in sh([exes[u["name"]], "--list", "x"], env=asan_env()).stdout.decode().splitlines()]
                    jobs += [(u, fexe, n) for n in names]
                secs = max(15, min(240, int(spec.get("fuzz_total", 6000) / max(1, len(jobs)))))
                ff = [rpool.submit(fuzz_unit, exes[u["name"]], fexe, u, n, secs, scratch, SEED * 7919 + i)
                      for i, (u, fexe, n) in enumerate(jobs)]
                for f in ff:
                    r = f.result()
                    fuzz.append({k: r[k] for k in ("target", "unit", "execs", "cov")})
                    if r["fail"]:
                        failures.append(r["fail"])
        # confirm
        violation, unconfirmed = None, []
        seen = set()
        for r in sorted(failures, key=lambda r: (r["kind"] == 3, len(r.get("tape", "")))):
            key = (r["unit"], r["target"])
            if key in seen:
                continue
            seen.add(key)
            if r.get("confirmed", 0) >= 2:
                n, text = confirm(exes[r["unit"]], r, scratch)
                if n == 3:
                    r["report"] = text
                    violation = violation or r
                    if violation:
                        break
            unconfirmed.append({k: r.get(k) for k in ("unit", "target", "msg", "mode", "seed", "case", "tape")})
        code = 0
        if violation:
            rd = os.path.join(HERE, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s.json" % (pid, hashlib.sha256((violation["target"] + violation["tape"]).encode()).hexdigest()[:10]))
            violation["property"] = pid
            with open(path, "w") as fh:
                json.dump(violation, fh, indent=1)
            print("property %s: %s" % (pid, spec.get("title", "")))
            print("target   %s (%s)" % (violation["target"], violation["unit"]))
            print("case     %s" % violation.get("sample", ""))
            print("failure  %s" % violation.get("msg", ""))
            if violation.get("report"):
                print(violation["report"])
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(path, HERE)))
            code = 1
        # evidence
        tg, samples, evals, dn, trunc, lost = {}, [], 0, 0, False, 0
        for r in results:
            if r.get("ok") is None:
                lost += 1
            if not r.get("ok"):
                continue
            st = r["stats"]
            trunc |= st["truncated"]
            for t in st["targets"]:
                e = tg.setdefault(r["unit"] + ":" + t["name"], {"cases": 0, "nontrivial": 0, "distinct_nontrivial": 0, "cpu_s": 0, "labels": {}})
                e["cases"] += t["cases"]
                e["nontrivial"] += t["nontrivial"]
                e["distinct_nontrivial"] += t["distinct"]
                e["cpu_s"] = round(e["cpu_s"] + t["cpu"], 2)
                e["worst_case_s"] = round(max(e.get("worst_case_s", 0), t["worst"]), 3)
                for k, v in t["labels"].items():
                    e["labels"][k] = e["labels"].get(k, 0) + v
                evals += t["cases"]
                dn += t["distinct"]
                for s in t["samples"]:
                    if sum(1 for x in samples if x["target"] == t["name"]) < 2:
                        samples.append({"target": t["name"], "case": s[:600]})
        ev = {"property": pid, "tier": "thorough" if thorough else "quick", "seed": SEED, "level": "exploration",
              "coverage": {"evaluations": evals, "distinct_nontrivial": dn, "rule": spec["rule"], "samples": samples[:60], "targets": tg},
              "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
        if fuzz:
            ev["coverage"]["libfuzzer"] = fuzz
        if trunc:
            ev["coverage"]["truncated_by_time"] = True
        if skipped:
            ev["coverage"]["skipped_units"] = skipped
        if lost:
            ev["coverage"]["shards_without_result"] = lost
        if unconfirmed:
            ev["coverage"]["unconfirmed_failures"] = unconfirmed
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1)
        for k in known_findings(pid):
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if code == 0:
            print("%s held: %d cases (%d distinct non-trivial) in %.1f s%s" % (pid, evals, dn, time.time() - t0, " [truncated]" if trunc else ""))
            if unconfirmed:
                print("note: %d unconfirmed failure(s), see evidence" % len(unconfirmed))
            if lost == len(results) and results:
                print("no shard produced a result")
                return 3
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def setup():
    t0 = time.time()
    prune()
    bad = 0
    with cf.ThreadPoolExecutor(NCPU) as pool:
        fins = [(u, build_unit(u, pool)) for pid in sorted(CHECKS) for u in CHECKS[pid]["units"]]
        for u, f in fins:
            try:
                f()
            except BuildError as e:
                bad += 1
                print("build of %s failed: %s" % (u["name"], e))
    print("setup: %d units, %d failed, %.0f s" % (len(fins), bad, time.time() - t0))
    return 1 if bad else 0


def replay(path):
    r = json.load(open(path))
    u = [u for u in CHECKS[r["property"]]["units"] if u["name"] == r["unit"]][0]
    with cf.ThreadPoolExecutor(NCPU) as pool:
        exe = build_unit(u, pool)()
    scratch = tempfile.mkdtemp(prefix="vp_replay_", dir="/tmp")
    try:
        n, text = confirm(exe, r, scratch)
        print(text if n else "HOLDS")
        print("failed in %d of 3 runs" % n)
        return 1 if n else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        return setup()
    if a[:1] == ["--replay"]:
        return replay(a[1])
    try:
        return check(a[0])
    except BuildError as e:
        print("build failed: %s" % e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
