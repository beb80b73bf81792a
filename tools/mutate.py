#!/usr/bin/env python3
"""Mutation study of the checks (development tool; no check runs it).

  mutate.py SCRATCH FILE[:N] ...   N sampled mutants of each file of src

SCRATCH gets a copy of the repository; every mutant that compiles in both
flavours is searched by all properties of the domains the file matters to.
Survivors are listed with their line for a human to judge."""
import os, random, re, shutil, subprocess, sys, time, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scratch = sys.argv[1]
os.makedirs(scratch, exist_ok=True)
repo = os.path.join(scratch, "repo")
if not os.path.exists(repo):
    os.makedirs(repo)
    shutil.copytree("/repo/src", os.path.join(repo, "src"))
os.environ["VERIF_REPO"] = repo
sys.path.insert(0, HERE)
import driver
driver.BUILD = os.path.join(scratch, "build")
DOM = {"obsrnx": ["obs", "life"], "gnssobs": ["obs"], "gnssobsrv": ["obs"], "satsys": ["obs", "nav", "sp3", "antex", "orbit"],
       "nvarstr": ["antex", "obs"], "navrnx": ["nav", "orbit", "life"], "glonav": ["orbit"], "gpsnav": ["orbit", "nav"], "galnav": ["orbit", "nav"], "bdsnav": ["orbit", "nav"], "sp3c": ["sp3", "life"],
       "antex": ["antex", "life"], "antenna": ["antex"], "antenna_pcv": ["antex"], "satellite": ["antex", "bern"],
       "bern_utils": ["bern", "life"], "gauss_newton": ["kalman"]}
PER = float(os.environ.get("MUT_SECONDS", "6"))
rng = random.Random(int(os.environ.get("MUT_SEED", "1")))


def strip(text):
    """blank out comments, strings and preprocessor lines, keeping positions"""
    out = list(text)
    i, n = 0, len(text)
    def blank(a, b):
        for k in range(a, b):
            if out[k] != "\n":
                out[k] = " "
    while i < n:
        if text.startswith("//", i):
            j = text.find("\n", i); j = n if j < 0 else j
            blank(i, j); i = j
        elif text.startswith("/*", i):
            j = text.find("*/", i); j = n if j < 0 else j + 2
            blank(i, j); i = j
        elif text[i] in "\"'":
            q, j = text[i], i + 1
            while j < n and text[j] != q:
                j += 2 if text[j] == "\\" else 1
            blank(i, j + 1); i = j + 1
        else:
            i += 1
    s = "".join(out)
    lines, depth, res = s.split("\n"), 0, []
    for l in lines:
        t = l.strip()
        if t.startswith("#"):
            if t.startswith("#ifdef DEBUG"):
                depth += 1
            elif t.startswith(("#if")) and depth:
                depth += 1
            elif t.startswith("#endif") and depth:
                depth -= 1
            elif t.startswith("#else") and depth == 1:
                depth = -99
            res.append(" " * len(l))
            if depth == -99:
                depth = 0
            continue
        res.append(" " * len(l) if depth > 0 or "cerr" in l else l)
    return "\n".join(res)


def mutants(text):
    s = strip(text)
    res = []
    def add(a, b, new, what):
        res.append((a, b, new, what))
    for m in re.finditer(r"(?<![<>=!+\-*/&|])(<=|>=|==|!=)(?!=)", s):
        add(m.start(), m.end(), {"<=": "<", ">=": ">", "==": "!=", "!=": "=="}[m.group(1)], m.group(1))
    for m in re.finditer(r" (<|>) ", s):
        add(m.start(), m.end(), " %s= " % m.group(1), m.group(1))
    for m in re.finditer(r"&&|\|\|", s):
        add(m.start(), m.end(), "||" if m.group() == "&&" else "&&", m.group())
    for m in re.finditer(r" ([+\-*]) ", s):
        add(m.start(), m.end(), {"+": " - ", "-": " + ", "*": " + "}[m.group(1)], m.group(1))
    for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", s):
        v = int(m.group(1))
        add(m.start(), m.end(), str(v + 1), "int+1")
        if v:
            add(m.start(), m.end(), str(v - 1), "int-1")
    for m in re.finditer(r"\bif \(", s):
        add(m.end() - 1, m.end(), "(false && ", "if false") if False else None
    pos = 0
    for l in s.split("\n"):
        t = l.strip()
        if t.endswith(";") and not re.match(r"(return|typedef|using|const|constexpr|static|break|double|int|char|std::|auto|long|float|bool|unsigned|size_t|template|explicit|virtual|friend)\b", t) and \
           re.match(r"[\w:>.*()\[\]\-]+ *(\(|=|\+=|\+\+|;)|\+\+", t) and t.count("(") == t.count(")") and "{" not in t:
            a = pos + len(l) - len(l.lstrip())
            add(a, pos + len(l.rstrip()), ";", "deleted")
        if re.match(r"(return|break|continue)\b.*;$", t) and ("continue" in t or "break" in t):
            a = pos + len(l) - len(l.lstrip())
            add(a, pos + len(l.rstrip()), ";", "deleted")
        pos += len(l) + 1
    return [r for r in res if r]


def main():
    total = killed = 0
    for arg in sys.argv[2:]:
        name, _, n = arg.partition(":")
        path = os.path.join(repo, "src", name)
        text = open(path).read()
        ms = mutants(text)
        ms = [m for m in ms if not m[3].startswith("int") or rng.random() < .35]
        rng.shuffle(ms)
        ms = ms[:int(n or 10)]
        doms = DOM[name.split(".")[0]]
        props = sorted(p for p, v in driver.PROPS.items() if v["domain"] in doms)
        for a, b, new, what in ms:
            open(path, "w").write(text[:a] + new + text[b:])
            ln = text.count("\n", 0, a) + 1
            src = text.split("\n")[ln - 1].strip()
            try:
                exes = driver.build(doms, ["prod", "debug"])
            except driver.BuildError:
                open(path, "w").write(text)
                continue
            total += 1
            def go(job):
                p, fl = job
                try:
                    r, j = driver.runexe(exes[driver.PROPS[p]["domain"], fl], ["--prop", p, "--seed", 1, "--first", 0 if fl == "prod" else 10**6, "--count", 10**6, "--limit", PER], timeout=200)
                except subprocess.TimeoutExpired:
                    return (p, "timeout")
                if not j:
                    return (p, "no result")
                return (p, j["kind"]) if j["rc"] == 1 else (p, "HARNESS " + j["msg"]) if j["rc"] == 2 else None
            with cf.ThreadPoolExecutor(8) as ex:
                hit = [h for h in ex.map(go, [(p, fl) for p in props for fl in ("prod", "debug")]) if h]
            tag = "killed" if hit else "SURVIVED"
            killed += bool(hit)
            print("%s %s:%d [%s -> %s] %s   %s" % (tag, name, ln, text[a:b].strip() if what != "deleted" else "stmt", new.strip(), src[:110], " ".join(sorted({"%s:%s" % h for h in hit}))[:150]), flush=True)
            for f in os.listdir(driver.BUILD):  # keep only what the unchanged tree uses
                p = os.path.join(driver.BUILD, f)
                if os.path.getmtime(p) > START and f not in KEEP:
                    os.unlink(p)
        open(path, "w").write(text)
    print("%d mutants, %d killed" % (total, killed))


START = time.time()
driver.build(sorted({d for a in sys.argv[2:] for d in DOM[a.split(".")[0]]}), ["prod", "debug"])
KEEP = set(os.listdir(driver.BUILD))
main()
