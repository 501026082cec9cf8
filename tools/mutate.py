#!/usr/bin/env python3
"""Random single-line mutants of the anchored sources against the check of a property (scratch copies only).

mutate.py WORKER SEED N PROP[,PROP...] [FILE...]     results appended to /tmp/w/mut_WORKER.log
"""
import json, os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
w, seed, n, props = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4].split(",")
only = sys.argv[5:]
T, VW = f"/tmp/w/m{w}", f"/tmp/w/mv{w}"
LOG = f"/tmp/w/mut_{w}.log"
PR = {}
for l in open(V + "/properties.jsonl"):
    d = json.loads(l)
    PR[d["id"]] = d["anchors"]["files"] if isinstance(d.get("anchors"), dict) else d["where"]["files"]


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


if not os.path.exists(T):
    sh(f"git clone -q /repo {T}")
sh(f"git -C {T} fetch -q /repo HEAD && git -C {T} reset -q --hard FETCH_HEAD")
sh(f"mkdir -p {VW}; cp -a {V}/*.py {V}/*.txt {V}/properties.jsonl {V}/harness {V}/compat {VW}/")
OPS = [(r"(?<![<>=!+\-*/&|])<(?=\s)", ["<="]), (r"<=", ["<"]), (r"(?<![>\-])>(?=\s\w)", [">="]), (r">=", [">"]),
       (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|", ["&&"]),
       (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["/"]), (r"\+=", ["-=", "="]),
       (r"-=", ["+="]), (r"\*=", ["="]), (r"\bstd::max\b", ["std::min"]), (r"\bstd::min\b", ["std::max"]),
       (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<![\w.])0(?![\w.])", ["1"]), (r"(?<![\w.])1(?![\w.])", ["0", "2"]),
       (r"(?<![\w.])2(?![\w.])", ["1", "3"]), (r"0\.5", ["1.0"]), (r"(?<![\w.])1\.0?(?![\w])", ["2."]),
       (r"^(\s+)[\w.\->\[\]()]+\(.*\);\s*$", [r"\1;"]), (r"^(\s+)[\w.\->\[\]()]+ [+\-*]?= .*;\s*$", [r"\1;"]),
       (r"\bmax\b", ["sum"]), (r"!(?=\w)", [""]), (r"\+ 1\b", [""]), (r"- 1\b", [""]), (r"\bbegin\b", ["end"])]
SKIP = re.compile(r"^\s*(//|\*|/\*|#|template|using |class |struct |namespace|static_assert|assert|Assert|AssertThrow|DEAL_II|friend|typename|public|private|protected|return;|break;|prm\.|pcout|std::cout|MyScope|const unsigned int +n_comp)|operator|prm\.|<<|TimerOutput|Exc|static_cast<.*>>|template ")


def mutants(f):
    res = []
    lines = open(f"{T}/{f}").read().split("\n")
    inblock = 0
    for i, l in enumerate(lines):
        if SKIP.search(l) or not l.strip():
            continue
        for pat, reps in OPS:
            for m in re.finditer(pat, l):
                ctx = l[max(0, m.start() - 12):m.start()]
                if pat.startswith("(?<![<>=!+") and re.search(r"(template|cast|std::\w+|\bfor)\s*$", ctx):
                    continue
                for r in reps:
                    new = l[:m.start()] + m.expand(r) + l[m.end():]
                    res.append((i, l, new))
    return res


rng = random.Random(seed)
for p in props:
    files = only or PR[p]
    allm = [(f, *m) for f in files for m in mutants(f)]
    rng.shuffle(allm)
    used = set()
    done = 0
    for f, i, old, new in allm:
        if done >= n:
            break
        if (f, i) in used:
            continue
        used.add((f, i))
        path = f"{T}/{f}"
        src = open(path).read()
        ls = src.split("\n")
        ls[i] = new
        open(path, "w").write("\n".join(ls))
        try:
            r = subprocess.run([sys.executable, "run_check.py", p], cwd=VW, capture_output=True, text=True, timeout=900,
                               env=dict(os.environ, VERIF_REPO=T, VERIF_TIER="quick"))
            rc = r.returncode
            msg = [l for l in r.stdout.split("\n") if l.startswith(("message", "check error"))]
        except subprocess.TimeoutExpired:
            rc, msg = -1, ["timeout"]
        open(path, "w").write(src)
        if rc == 2:
            continue
        done += 1
        with open(LOG, "a") as g:
            g.write(f"{'caught' if rc == 1 else 'MISSED' if rc == 0 else 'ERROR%d' % rc} {p} {f.split('/')[-1]}:{i+1}\n   - {old.strip()}\n   + {new.strip()}\n" + (f"   {msg[0][:160]}\n" if msg else ""))
