#!/usr/bin/env python3
"""Builds the simulator from /repo's current tree, searches, gates, minimises
and reports.  See DESIGN.md.

  driver.py check C01 [--tier quick|thorough]     decide one property
  driver.py replay FILE                           reproduce a reported violation
  driver.py build                                 build everything (setup_cmd)
  driver.py determinism [C01 ...]                 same seeds, several processes and worker counts
"""
import argparse, concurrent.futures as cf, hashlib, json, os, re, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
CXX = os.environ.get("CXX", "g++")
LIB = "nvarstr satsys satellite gnssobs gnssobsrv bern_utils antenna antenna_pcv antex navrnx gpsnav galnav glonav bdsnav obsrnx sp3c".split()
NOTLIB = ["navcmp"]  # a program, not part of the library
PRE = "string utility cerrno cassert iostream cmath limits vector algorithm map cstring stdexcept memory array".split()
SAN = "-fsanitize=address,bounds,null,return,shift -fno-sanitize-recover=all".split()
FLAV = {"prod": [], "debug": ["-DDEBUG"]}
POINTS = ("strtod strtof strtol __isoc23_strtol strtoul __isoc23_strtoul strtoll __isoc23_strtoll memcpy memmove memset memcmp "
          "memchr strncpy strcpy strcmp strncmp strlen strchr strstr lround round floor ceil trunc modf fmod sin cos tan sqrt "
          "atan2 pow abs").split()
NCPU = os.cpu_count() or 8

from props import PROPS  # per property: domain, runs, texts


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def slurp(p):
    with open(p, "rb") as f:
        return f.read()


def headers(*dirs):
    out = []
    for d in dirs:
        for n in sorted(os.listdir(d)):
            if n.endswith((".hpp", ".h")):
                out.append(n)
                out.append(slurp(os.path.join(d, n)))
    return out


def compile_one(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return ""
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX, *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        return "%s: %s" % (src, r.stderr[-2000:])
    if "-fsanitize-coverage=trace-pc" in flags:  # code under test: its libc calls are preemption points
        r = subprocess.run(["objcopy", *["--redefine-sym=%s=sim_%s" % (s, s) for s in POINTS], tmp], capture_output=True, text=True)
        if r.returncode:
            return "%s: objcopy: %s" % (src, r.stderr[-2000:])
    os.replace(tmp, obj)
    return ""


def build(domains, flavours):
    """Compile the library (all of it, real sources) and the named simulator domains."""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(REPO, "src")
    shim = os.path.join(VERIF, "shim")
    sim = os.path.join(VERIF, "sim")
    inc = []
    for h in PRE:
        inc += ["-include", h]
    inc += ["-I", shim, "-I", src, "-I", sim, "-isystem", "/usr/include/eigen3"]
    hh = headers(src, os.path.join(shim, "ggdatetime"))
    sh = headers(sim)
    ver = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    jobs, exes = [], {}
    optional = set()  # sources that are not in the library today: used if they compile
    have = sorted(n[:-4] for n in os.listdir(src) if n.endswith(".cpp") and n[:-4] not in NOTLIB)
    have = [n for n in have if not re.search(rb"\bint\s+main\s*\(", slurp(os.path.join(src, n + ".cpp")))]
    for fl in flavours:
        flags = ["-std=c++17", "-O1", "-g1", "-w", *FLAV[fl], *SAN, "-fsanitize-coverage=trace-pc",
                 "-fno-omit-frame-pointer", *inc]
        objs = []
        for f in have:
            p = os.path.join(src, f + ".cpp")
            o = os.path.join(BUILD, "%s-%s-%s.o" % (f, fl, sha(ver, flags, POINTS, hh, slurp(p))))
            jobs.append((p, o, flags))
            objs.append(o)
            if f not in LIB:
                optional.add(o)
        cflags = ["-std=c++17", "-O2", "-g1", "-w", *FLAV[fl], "-fsanitize=address", "-I", shim, "-I", sim]
        p = os.path.join(sim, "core.cpp")
        core = os.path.join(BUILD, "core-%s-%s.o" % (fl, sha(ver, cflags, sh, slurp(p))))
        jobs.append((p, core, cflags))
        for d in domains:
            p = os.path.join(sim, d + ".cpp")
            o = os.path.join(BUILD, "sim_%s-%s-%s.o" % (d, fl, sha(ver, flags, POINTS, hh, sh, slurp(p))))
            jobs.append((p, o, flags))
            exe = os.path.join(BUILD, "sim_%s-%s-%s" % (d, fl, sha(o, core, *objs)))
            exes[d, fl] = (exe, [o, core, *objs])
    # longest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e, j in zip(ex.map(compile_one, jobs), jobs) if e and j[1] not in optional]
    gone = {o for o in optional if not os.path.exists(o)}
    if errs:
        raise BuildError("\n".join(errs[:3]))

    def link(it):
        exe, objs = it
        objs = [o for o in objs if o not in gone]
        if os.path.exists(exe):
            return ""
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX, "-fsanitize=address,undefined", "-no-pie", *objs, "-o", tmp, "-ldl", "-lpthread"],
                           capture_output=True, text=True)
        if r.returncode:
            return r.stderr[-2000:]
        os.replace(tmp, exe)
        return ""
    with cf.ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(link, exes.values()) if e]
    if errs:
        raise BuildError("\n".join(errs[:3]))
    return {k: v[0] for k, v in exes.items()}


def clean_old():
    """keep the cache small: drop objects not used for two days"""
    try:
        now = time.time()
        for n in os.listdir(BUILD):
            p = os.path.join(BUILD, n)
            if now - os.path.getmtime(p) > 2 * 86400:
                os.unlink(p)
    except OSError:
        pass


def runexe(exe, args, timeout=600):
    r = subprocess.run([exe, *map(str, args)], capture_output=True, text=True, timeout=timeout)
    line = [l for l in r.stdout.splitlines() if l.startswith("{")]
    try:
        j = json.loads(line[-1]) if line else None
    except ValueError:
        j = None
    return r, j


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                out.append(l.strip())
    return out


def report(prop, flavour, exe, seed0, res, tmp):
    """gate a failing run, minimise it, write the replay file; returns its path"""
    base = ["--prop", prop, "--seed", seed0]
    r1, a = runexe(exe, base + ["--mode", "run", "--first", res["seed"]])
    r2, b = runexe(exe, base + ["--mode", "run", "--first", res["seed"]])
    rec = {"property": prop, "flavour": flavour, "verif_seed": seed0, "seed": res["seed"]}
    if not a or not b or a["rc"] != 1 or b["rc"] != 1:
        # does it need the runs before it in the same process?
        first = res.get("batch_first", res["seed"])
        cnt = res["seed"] - first + 1
        _, a = runexe(exe, base + ["--mode", "batch", "--first", first, "--count", cnt])
        if not a or a["rc"] != 1:
            die("violation of %s (seed %s, %s: %s) does not reproduce" % (prop, res["seed"], res["kind"], res["msg"]))
        while cnt > 1:  # drop leading runs while it still fails
            half = cnt // 2
            _, b = runexe(exe, base + ["--mode", "batch", "--first", first + half, "--count", cnt - half])
            if b and b["rc"] == 1 and b["seed"] == a["seed"]:
                first, cnt, a = first + half, cnt - half, b
            else:
                break
        tr = os.path.join(tmp, "trace.txt")
        _, b = runexe(exe, base + ["--mode", "batch", "--first", first, "--count", cnt, "--trace", tr])
        if not b or (a["kind"], a["hash"]) != (b["kind"], b["hash"]):
            die("violation of %s is not deterministic" % prop)
        rec.update(batch=[first, cnt], kind=a["kind"], msg=a["msg"], hash=a["hash"])
    else:
        if (a["kind"], a["hash"]) != (b["kind"], b["hash"]):
            die("violation of %s is not deterministic: %s / %s" % (prop, a["kind"], b["kind"]))
        cfile = os.path.join(tmp, "choices.txt")

        def put(c):
            with open(cfile, "w") as f:
                f.write(" ".join(map(str, c)))
        put(a["choices"])
        _, m = runexe(exe, base + ["--mode", "shrink", "--file", cfile, "--limit", 40])
        if not m or m["rc"] != 1:
            m = a
        put(m["choices"])
        tr = os.path.join(tmp, "trace.txt")
        _, c1 = runexe(exe, base + ["--mode", "replay", "--file", cfile, "--trace", tr])
        _, c2 = runexe(exe, base + ["--mode", "replay", "--file", cfile])
        if not c1 or not c2 or c1["rc"] != 1 or (c1["kind"], c1["hash"]) != (c2["kind"], c2["hash"]):
            die("minimised violation of %s does not replay" % prop)
        rec.update(choices=m["choices"], shrink_evals=m.get("evals", 0), original_choices=len(a["choices"]),
                   kind=c1["kind"], msg=c1["msg"], hash=c1["hash"])
    with open(tr, errors="replace") as f:
        rec["trace"] = f.read().splitlines()[:3000]
    rec["how"] = "python3 driver.py replay <this file>  (run in /verif)"
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%s.replay.json" % (prop, rec["hash"]))
    with open(path, "w") as f:
        json.dump(rec, f, indent=1)
    return path, rec


def check(prop, tier):
    t_start = time.time()
    seed0 = int(os.environ.get("VERIF_SEED", "1") or 1)
    P = PROPS[prop]
    try:
        exes = build([P["domain"]], P.get("flavours", ["prod", "debug"]))
    except BuildError as e:
        die("build failed:\n" + str(e))
    t_build = time.time() - t_start
    runs, cap = (P["quick"], P.get("quick_cap", 60)) if tier == "quick" else (P["thorough"], P.get("thorough_cap", 780))
    flavours = P.get("flavours", ["prod", "debug"])
    share = P.get("share", {"prod": 0.7, "debug": 0.3}) if len(flavours) == 2 else {flavours[0]: 1.0}
    # fixed work list: (flavour, first seed, count); 4 slices per worker and flavour
    jobs, per = [], {}
    base = 0  # the flavours run different seeds
    for fl in flavours:
        n = int(runs * share[fl])
        k = NCPU if tier == "quick" else NCPU * 6
        step = (n + k - 1) // k
        for i in range(0, n, step):
            jobs.append((fl, base + i, min(step, n - i), i))
        base += n
    jobs.sort(key=lambda j: j[3])
    failures, stats, hashes, edges, harness = [], [], {}, {}, []
    t0 = time.time()
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        def work(i):
            fl, first, cnt, _ = jobs[i]
            left = cap - (time.time() - t0)
            if failures or left <= 0:
                return
            st = os.path.join(tmp, "s%d" % i)
            p = subprocess.Popen([exes[P["domain"], fl], "--prop", prop, "--seed", str(seed0), "--first", str(first),
                                  "--count", str(cnt), "--limit", "%.1f" % left, "--stats", st],
                                 stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            while True:
                try:
                    p.wait(0.5)
                    break
                except subprocess.TimeoutExpired:
                    if failures and time.time() - failures[0][3] > 10:
                        p.kill()
                        p.wait()
                        return
                    if time.time() - t0 > cap + 120:
                        p.kill()
                        p.wait()
                        harness.append("worker did not stop")
                        return
            try:
                j = json.load(open(st))
            except Exception:
                harness.append("worker gave no result (exit %s)" % p.returncode)
                return
            stats.append((fl, j))
            b = slurp(st + ".bin")
            e = edges.setdefault(fl, bytearray(65536))
            for k in range(65536):
                if b[k]:
                    e[k] = 1
            h = hashes.setdefault(fl, set())
            n = (len(b) - 65536) // 8
            h.update(struct.unpack("<%dQ" % n, b[65536:65536 + 8 * n]))
            if j["rc"] == 1:
                failures.append((fl, j["seed"], j, time.time()))
            elif j["rc"] == 2:
                harness.append("%s: %s" % (j["kind"], j["msg"]))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(work, range(len(jobs))))
        search_s = time.time() - t0
        rc, line = 0, ""
        if harness and not failures:
            die("; ".join(harness[:3]))
        if failures:
            failures.sort(key=lambda f: (f[1], f[0]))
            fl, _, res, _ = failures[0]
            path, rec = report(prop, fl, exes[P["domain"], fl], seed0, res, tmp)
            line = "VIOLATION property=%s replay=%s" % (prop, path)
            print("%s [%s] %s" % (prop, rec["kind"], rec["msg"]))
            rc = 1
        # samples: the first few non-trivial runs, written out
        samples = []
        fl = flavours[0]
        for s in range(3):
            tr = os.path.join(tmp, "sample%d" % s)
            subprocess.run([exes[P["domain"], fl], "--prop", prop, "--seed", str(seed0), "--mode", "run", "--first",
                            str(s), "--trace", tr], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(tr):
                lines = open(tr, errors="replace").read().splitlines()
                hist = [l for l in lines if not l.startswith("  |")]
                samples.append({"seed": s, "flavour": fl, "history": hist[:60], "history_lines": len(hist)})
    tot = lambda k: sum(j[k] for _, j in stats)
    named = {}
    for _, j in stats:
        for k, v in j["named"].items():
            named[k] = named.get(k, 0) + v
    n_runs = tot("runs")
    distinct = set()
    for h in hashes.values():
        distinct |= h
    ev = {
        "property": prop, "tier": tier, "seed": seed0, "level": "exploration",
        "coverage": {
            "evaluations": n_runs,
            "distinct_nontrivial": len(distinct),
            "rule": P["rule"] + " Two runs are distinct when their recorded histories (stored files, operations, results, faults) hash differently.",
            "samples": samples,
            "simulated_runs_per_flavour": {fl: sum(j["runs"] for f, j in stats if f == fl) for fl in flavours},
            "seeds_per_hour": int(n_runs / max(search_s, 1e-3) * 3600),
            "simulated_time_s": round(tot("simtime"), 3),
            "calls_into_library": tot("api_calls"),
            "basic_blocks_executed": tot("steps"),
            "distinct_edges_reached": {fl: sum(e) for fl, e in edges.items()},
            "faults_injected": {k[2:]: v for k, v in sorted(named.items()) if k.startswith("f:")},
            "rare_conditions_hit": {k[2:]: v for k, v in sorted(named.items()) if k.startswith("p:")},
            "components_real": P["real"],
            "components_stub": P["stub"],
            "build_s": round(t_build, 1), "search_s": round(search_s, 1),
            "planned_runs": runs,
        },
        "assumptions": P["assumptions"],
        "wall_s": round(time.time() - t_start, 2),
        "violations": 1 if rc else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k.split(" ", 2)[2]))
    if rc:
        print(line, flush=True)
    else:
        c = ev["coverage"]
        print("%s held on %d simulated runs (%d distinct non-trivial histories), %.0f simulated s, faults %s, %.1f s" % (
            prop, n_runs, len(distinct), c["simulated_time_s"], json.dumps(c["faults_injected"]), ev["wall_s"]))
    clean_old()
    sys.exit(rc)


def replay(path):
    rec = json.load(open(path))
    P = PROPS[rec["property"]]
    try:
        exe = build([P["domain"]], [rec["flavour"]])[P["domain"], rec["flavour"]]
    except BuildError as e:
        die("build failed:\n" + str(e))
    with tempfile.TemporaryDirectory(prefix="verif-") as tmp:
        tr = os.path.join(tmp, "trace")
        base = ["--prop", rec["property"], "--seed", rec["verif_seed"], "--trace", tr]
        if "batch" in rec:
            r, j = runexe(exe, base + ["--mode", "batch", "--first", rec["batch"][0], "--count", rec["batch"][1], "--stderr"])
        else:
            cfile = os.path.join(tmp, "c")
            with open(cfile, "w") as f:
                f.write(" ".join(map(str, rec["choices"])))
            r, j = runexe(exe, base + ["--mode", "replay", "--file", cfile, "--stderr"])
        print(open(tr, errors="replace").read())
    if r.stderr:
        print(r.stderr[-6000:])
    if not j:
        die("replay gave no result")
    if j["rc"] == 1:
        same = (j["kind"], j["hash"]) == (rec["kind"], rec["hash"])
        print("[%s] %s" % (j["kind"], j["msg"]))
        print("reproduced %s" % ("exactly" if same else "a violation, but not the recorded one (the code differs)"))
        print("VIOLATION property=%s replay=%s" % (rec["property"], path))
        sys.exit(1)
    print("the replay does not fail on the current tree")
    sys.exit(j["rc"])


def determinism(props):
    props = props or sorted(PROPS)
    seed0 = int(os.environ.get("VERIF_SEED", "1") or 1)
    exes = build(sorted({PROPS[p]["domain"] for p in props}), ["prod", "debug"])
    bad = 0
    for p in props:
        for fl in PROPS[p].get("flavours", ["prod", "debug"]):
            exe = exes[PROPS[p]["domain"], fl]

            def go(a):
                r = subprocess.run([exe, "--prop", p, "--seed", str(seed0), "--mode", "hashes", "--first", str(a[0]),
                                    "--count", str(a[1])], capture_output=True, text=True)
                return [l for l in r.stdout.splitlines() if not l.startswith("{")]
            n = 400
            with cf.ThreadPoolExecutor(NCPU) as ex:
                one = sum(ex.map(go, [(i, 10) for i in range(0, n, 10)]), [])
            with cf.ThreadPoolExecutor(3) as ex:
                two = sum(ex.map(go, [(i, 100) for i in range(0, n, 100)]), [])
            diff = [(a, b) for a, b in zip(one, two) if a != b]
            print("%s %s: %d seeds twice, %d differ" % (p, fl, len(one), len(diff) + abs(len(one) - len(two))))
            bad += len(diff) + abs(len(one) - len(two))
    sys.exit(1 if bad else 0)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["check", "replay", "build", "determinism"])
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.cmd == "check":
        check(a.args[0], a.tier if a.tier in ("quick", "thorough") else "quick")
    elif a.cmd == "replay":
        replay(a.args[0])
    elif a.cmd == "determinism":
        determinism(a.args)
    else:
        try:
            build(sorted({p["domain"] for p in PROPS.values()}), ["prod", "debug"])
        except BuildError as e:
            die("build failed:\n" + str(e))


if __name__ == "__main__":
    main()
