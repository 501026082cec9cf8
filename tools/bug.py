#!/usr/bin/env python3
"""Plant and validate bugs in a scratch copy (never in /repo).

bug.py reset                     scratch copy = HEAD of /repo
bug.py capture ID PROP DEMO.cc 'needs' 'what it breaks' [--np N] [--sources a,b]
                                 the diff of the scratch copy becomes seeded/ID
bug.py verify ID [...]           build, stable tests, demo on both trees, checks
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/w/repo"          # edited by hand
S = "/tmp/w/verify"        # used by verify


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def ns(cmd, tree, timeout=3000):
    return subprocess.run(["unshare", "-Urm", "bash", "-c", f"mount --bind {tree} /repo && cd /repo && " + cmd],
                          capture_output=True, text=True, timeout=timeout)


def sync(tree):
    os.makedirs("/tmp/w", exist_ok=True)
    if not os.path.exists(tree):
        sh(f"cp -a /repo {tree}")
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"git -C {tree} fetch -q /repo HEAD; git -C {tree} reset -q --hard {head}")


def capture(a):
    np, sources = None, None
    if "--np" in a:
        i = a.index("--np"); np = a[i + 1]; del a[i:i + 2]
    if "--sources" in a:
        i = a.index("--sources"); sources = a[i + 1]; del a[i:i + 2]
    bid, prop, demo, needs, breaks = a
    d = f"{V}/seeded/{bid}"
    os.makedirs(d, exist_ok=True)
    diff = sh(f"git -C {W} diff").stdout
    assert diff.strip(), "no change"
    open(d + "/patch.diff", "w").write(diff)
    for f in os.listdir(V + "/tools/demo_common"):
        shutil.copy(f"{V}/tools/demo_common/{f}", d)
    if os.path.abspath(demo) != d + "/demo.cc":
        shutil.copy(demo, d + "/demo.cc")
    if np:
        open(d + "/np", "w").write(np + "\n")
    if sources:
        open(d + "/sources", "w").write("\n".join(sources.split(",")) + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    sh(f"git -C {W} checkout -q -- .")


def verify(ids):
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for bid in ids:
        d = f"{V}/seeded/{bid}"
        meta = json.load(open(d + "/meta.json"))
        sync(S)
        r0 = ns(f"bash {d}/demo.sh", S)
        ap = sh(f"git -C {S} apply {d}/patch.diff")
        r1 = ns(f"bash {d}/demo.sh", S)
        res = f"{bid} [{meta['property']}]: apply {ap.returncode} demo clean {r0.returncode} patched {r1.returncode}"
        if r0.returncode or not r1.returncode:
            res += "\n" + (r0.stdout + r0.stderr)[-1500:] + "\n----\n" + (r1.stdout + r1.stderr)[-1500:]
        if "--notest" not in sys.argv:
            b = ns("bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/w/out.json", S)
            try:
                passed = set(json.load(open("/tmp/w/out.json"))["passed"])
                os.remove("/tmp/w/out.json")
            except OSError:
                passed = set()
            miss = stable - passed
            res += f" tests {'ok' if not miss else 'BROKEN ' + str(sorted(miss)[:3]) + b.stderr[-500:]}"
        vw = "/tmp/w/verif"
        sh(f"mkdir -p {vw}; rsync -a --delete --exclude build --exclude .git --exclude seeded --exclude replays --exclude evidence {V}/ {vw}/ || (cp -a {V}/*.py {V}/*.txt {V}/harness {V}/compat {vw}/)")
        c = subprocess.run(["unshare", "-Urm", "bash", "-c",
                            f"mount --bind {S} /repo && cd {vw} && VERIF_SEED=1 VERIF_TIER=quick python3 run_check.py {meta['property']}"],
                           capture_output=True, text=True)
        lines = c.stdout.strip().splitlines()
        msg = [l for l in lines if l.startswith(("message", "VIOLATION", "check error"))]
        res += f" check {c.returncode} {'CAUGHT' if c.returncode == 1 else 'MISSED'}"
        res += "\n    " + "\n    ".join(m[:300] for m in msg or lines[-2:])
        print(res, flush=True)
        sh(f"git -C {S} checkout -q -- .")


if sys.argv[1] == "reset":
    sync(W)
elif sys.argv[1] == "capture":
    capture(sys.argv[2:])
elif sys.argv[1] == "verify":
    verify([x for x in sys.argv[2:] if not x.startswith("--")])
