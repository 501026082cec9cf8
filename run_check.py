#!/usr/bin/env python3
"""Build and run the generated-input checks of one property.

usage: run_check.py PROPERTY [--tier quick|thorough] [--seed N]
       run_check.py --setup            (overlay + everything the checks link)
       run_check.py --build PROPERTY
       run_check.py --replay FILE
exit 0: property held on everything explored; exit 1 + VIOLATION line otherwise.
"""
import argparse, hashlib, json, os, re, subprocess, sys, threading, time, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
NCPU = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, VERIF)
from checks import CHECKS, BINS, APP_SOURCES  # noqa: E402

ENV = dict(os.environ)
ENV.update({
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader",
    "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_plm_rsh_agent": "false", "OMPI_MCA_oob_tcp_if_include": "lo",
    "OMPI_MCA_ess_singleton_isolated": "1",
    "OMPI_MCA_rmaps_base_oversubscribe": "1",
    "OMPI_MCA_hwloc_base_binding_policy": "none",
    "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMP_NUM_THREADS": "1", "DEAL_II_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1", "LC_ALL": "C.UTF-8",
    "ASAN_OPTIONS": "detect_leaks=0",
    "MALLOC_PERTURB_": "165",
})
OV = os.path.join(BUILD, "ov")
L = "/usr/lib/x86_64-linux-gnu"
INC = ["-isystem", OV,
       f"-I{REPO}/applications/sintering/include", f"-I{REPO}/include",
       f"-I{REPO}/applications/structural/include",
       f"-I{REPO}/tests/include",
       f"-I{VERIF}/harness",
       "-isystem", f"{L}/openmpi/include",
       "-isystem", f"{L}/openmpi/include/openmpi",
       "-isystem", "/usr/include/petsc", "-isystem", "/usr/include/trilinos",
       "-isystem", "/usr/include/hdf5/openmpi",
       "-isystem", "/usr/include/scotch",
       "-isystem", "/usr/include/suitesparse",
       "-isystem", "/usr/include/opencascade",
       "-isystem", "/usr/include/slepc"]


def log(*a):
    print(*a, flush=True)


def sha(data):
    return hashlib.sha1(data).hexdigest()


_filehash = {}


def fhash(p):
    if p not in _filehash:
        try:
            with open(p, "rb") as f:
                _filehash[p] = sha(f.read())
        except OSError:
            _filehash[p] = "missing"
    return _filehash[p]


def make_overlay():
    os.makedirs(BUILD, exist_ok=True)
    r = subprocess.run([sys.executable, os.path.join(VERIF, "compat/mk_overlay.py"), OV],
                       capture_output=True, text=True)
    if r.returncode:
        log(r.stdout + r.stderr)
        raise SystemExit(2)


def compile_obj(src, flags):
    """compile with a content-addressed cache; returns (object, error)"""
    key = sha((REPO + " " + src + " " + " ".join(flags)).encode())[:16]
    base = os.path.join(BUILD, "obj", os.path.basename(src).replace(".", "_") + "_" + key)
    obj, dep, st = base + ".o", base + ".d", base + ".st"
    os.makedirs(os.path.dirname(base), exist_ok=True)
    if os.path.exists(obj) and os.path.exists(st):
        try:
            old = json.load(open(st))
            if all(fhash(p) == h for p, h in old.items()):
                return obj, None
        except ValueError:
            pass
    cmd = ["g++", "-w", *INC, "-std=gnu++20", "-include", "compat_prelude.h",
           "-fmax-errors=5", *flags, "-MMD", "-MF", dep, "-c", src, "-o", obj]
    t0 = time.time()
    r = subprocess.run(cmd, capture_output=True, text=True, cwd=BUILD)
    if r.returncode:
        return None, f"compilation of {src} failed:\n" + r.stderr[-4000:]
    deps = open(dep).read().replace("\\\n", " ").split(":", 1)[1].split()
    json.dump({p: fhash(p) for p in deps
               if p.startswith((REPO, VERIF + "/harness"))}, open(st, "w"))
    log(f"  [cc] {os.path.basename(src)} {time.time()-t0:.1f}s")
    return obj, None


def job_bins(jobs):
    return sorted({b for j in jobs for b in [j["bin"], *j.get("tools", [])]})


def build_bins(names):
    make_overlay()
    jobs = {}
    for n in names:
        b = BINS[n]
        flags = [b.get("opt", "-O1"), "-DNDEBUG", *b.get("flags", []), *os.environ.get("PBT_CXXFLAGS", "").split()]
        srcs = [os.path.join(VERIF, "harness", s) if not s.startswith("/") else s for s in b["src"]]
        if not b.get("nomain"):
            srcs.append(os.path.join(VERIF, "harness/main.cc"))
        for s in srcs:
            jobs[(n, s)] = flags
        for s in b.get("app", []):
            s = os.path.join(REPO, s)
            jobs[(n, s)] = flags
    uniq = {}
    for (n, s), fl in jobs.items():
        # main.cc and library sources do not depend on per-binary macros
        if s.endswith("harness/main.cc") or "-DSIM_LIB" in fl and s.startswith(REPO) and "/src/" in s:
            fl = ["-O1", "-DNDEBUG"]
        jobs[(n, s)] = fl
        uniq[(s, tuple(fl))] = None
    # long translation units first
    order = sorted(uniq, key=lambda k: (0 if "/harness/h_" in k[0] or "generic" in k[0] else 1))
    with ThreadPoolExecutor(NCPU) as ex:
        futs = {k: ex.submit(compile_obj, k[0], list(k[1])) for k in order}
        res = {k: f.result() for k, f in futs.items()}
    errs = [e for o, e in res.values() if e]
    if errs:
        for e in errs:
            log(e)
        return None
    out = {}

    def link(n):
        objs = [res[(s, tuple(fl))][0] for (m, s), fl in jobs.items() if m == n]
        key = sha("".join(o + fhash(o) for o in objs).encode())[:16]
        exe = os.path.join(BUILD, f"{n}")
        mark = exe + ".key"
        if os.path.exists(exe) and os.path.exists(mark) and open(mark).read() == key:
            return n, exe, None
        links = open(os.path.join(VERIF, "compat/links.txt")).read().split()
        r = subprocess.run(["g++", *BINS[n].get("flags", []), "-fuse-ld=gold", "-rdynamic", *objs, "-o", exe, *links],
                           capture_output=True, text=True)
        if r.returncode:
            return n, None, r.stderr[-4000:]
        open(mark, "w").write(key)
        return n, exe, None

    _filehash.clear()
    with ThreadPoolExecutor(NCPU) as ex:
        for n, exe, err in ex.map(link, names):
            if err:
                log("link of", n, "failed:", err)
                return None
            out[n] = exe
    return out


class Slots:
    def __init__(self, n):
        self.n, self.cv = n, threading.Condition()

    def get(self, k):
        k = min(k, NCPU)
        with self.cv:
            while self.n < k:
                self.cv.wait()
            self.n -= k

    def put(self, k):
        k = min(k, NCPU)
        with self.cv:
            self.n += k
            self.cv.notify_all()


def mpi_prefix(np):
    return [] if np == 1 else ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(np)]


def scratch(tag):
    d = os.path.join(BUILD, "scratch", f"{tag}_{os.getpid()}_{time.monotonic_ns()}")
    os.makedirs(d, exist_ok=True)
    return d


def private(wd):
    # session directories of Open MPI in the scratch directory: concurrent runs in other sandboxes of the same /tmp must not collide
    e = dict(ENV)
    t = os.path.join(wd, "t")
    os.makedirs(t, exist_ok=True)
    e.update(TMPDIR=t, OMPI_MCA_orte_tmpdir_base=t)
    return e


def run_worker(exe, job, seed, first, count, stride, outdir, tag, timeout):
    np = job.get("np", 1)
    out = os.path.join(outdir, f"{tag}.json")
    wd = scratch("w")
    cmd = mpi_prefix(np) + [exe, "--prop", job["prop"], "--seed", str(seed), "--first", str(first),
           "--count", str(count), "--stride", str(stride), "--out", out,
           "--cpu-limit", str(job.get("cpu_limit", 100)),
           "--shrink-time", str(job.get("shrink_time", 15))]
    try:
        r = subprocess.run(cmd, cwd=wd, env=private(wd), capture_output=True, text=True,
                           timeout=timeout, errors="replace")
        rc, tail = r.returncode, (r.stdout[-1500:] + r.stderr[-1500:])
    except subprocess.TimeoutExpired:
        rc, tail = -999, "timeout"
    shutil.rmtree(wd, ignore_errors=True)
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    fail = None
    if os.path.exists(out + ".fail"):
        try:
            fail = json.loads(open(out + ".fail").read())
        except ValueError:
            fail = None
    return rc, res, fail, tail


def replay(exe, job, path, timeout=300):
    """True if the recorded case still fails"""
    np = job.get("np", 1)
    wd = scratch("r")
    cmd = mpi_prefix(np) + [exe, "--prop", job["prop"], "--replay", path,
                            "--out", os.path.join(wd, "o"),
                            "--cpu-limit", str(job.get("cpu_limit", 100))]
    try:
        r = subprocess.run(cmd, cwd=wd, env=private(wd), capture_output=True, text=True,
                           timeout=timeout, errors="replace")
        rc = r.returncode
        txt = r.stdout + r.stderr[-1500:]
    except subprocess.TimeoutExpired:
        rc, txt = -999, "timeout"
    shutil.rmtree(wd, ignore_errors=True)
    if rc == 0:
        return False, txt
    return True, txt


def known_findings(prop):
    res = {}
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def run_property(pid, tier, seed):
    t0 = time.time()
    chk = CHECKS[pid]
    names = job_bins(chk["jobs"])
    exes = build_bins(names)
    if exes is None:
        log(f"{pid}: build error")
        return 2
    t_build = time.time() - t0
    outdir = scratch("out_" + pid)
    slots = Slots(NCPU)
    stop = threading.Event()
    tasks = []
    for ji, job in enumerate(chk["jobs"]):
        n = job.get(tier, job.get("quick"))
        np = job.get("np", 1)
        w = job.get("workers", max(1, NCPU // np))
        w = max(1, min(w, n))
        for k in range(w):
            cnt = n // w + (1 if k < n % w else 0)
            tasks.append((ji, job, k, cnt, w))
    # expensive first
    tasks.sort(key=lambda t: -t[1].get("prio", t[1].get("np", 1)))
    limit = chk.get("timeout", 700 if tier == "quick" else 6 * 3600)
    results = []

    def go(t):
        ji, job, k, cnt, w = t
        slots.get(job.get("np", 1))
        try:
            if stop.is_set():
                return
            rc, res, fail, tail = run_worker(exes[job["bin"]], job, seed, k, cnt, w, outdir,
                                             f"j{ji}_{k}", limit)
            results.append((ji, job, rc, res, fail, tail))
            if rc != 0:
                stop.set()
        finally:
            slots.put(job.get("np", 1))

    threads = [threading.Thread(target=go, args=(t,)) for t in tasks]
    for t in threads:
        t.start()
    for t in threads:
        t.join()

    evals, distinct, labels, samples, known = 0, set(), {}, [], set()
    per = {}
    for ji, job, rc, res, fail, tail in sorted(results, key=lambda r: r[0]):
        if res:
            evals += res["evaluations"]
            d = per.setdefault(job["prop"], {"evaluations": 0, "discards": 0, "labels": {}, "ranks": job.get("np", 1)})
            d["evaluations"] += res["evaluations"]
            d["discards"] += res["discards"]
            for l, n in res["labels"].items():
                d["labels"][l] = d["labels"].get(l, 0) + n
            distinct |= {job["prop"] + str(job.get("np", 1)) + h for h in res["distinct"]}
            if len([s for s in samples if s.startswith(job["prop"] + ":")]) < 2:
                samples += [job["prop"] + ": " + s for s in res["samples"][:1]]
            known |= set(res["known"])
    status, violations = 0, 0
    errors = []
    for ji, job, rc, res, fail, tail in results:
        if rc == 0:
            continue
        if fail is None:
            # no case on record: not attributable to the code under test
            errors.append((job["prop"], rc, tail))
            continue
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays",
                            f"{pid}_{job['prop']}_{sha(json.dumps(fail).encode())[:10]}.json")
        fail["property"] = pid
        fail["bin"] = job["bin"]
        fail["np"] = job.get("np", 1)
        with open(path, "w") as f:
            json.dump(fail, f)
        ok = [replay(exes[job["bin"]], job, path)[0] for _ in range(3)]
        if all(ok):
            log(f"failing case ({job['prop']}): {fail['case'][:1500]}")
            log(f"message: {fail['message'][:1500]}")
            log(f"VIOLATION property={pid} replay={os.path.relpath(path, VERIF)}")
            status = 1
            violations += 1
            break
        errors.append((job["prop"], rc, "not reproducible: %s: %s" % (ok, fail["message"][:500])))
    for k, txt in known_findings(pid).items():
        if k in known:
            log(f"KNOWN-FINDING: property={pid} {txt}")
    if status == 0 and errors:
        for e in errors:
            log("check error", e)
        status = 3
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(distinct),
                       "rule": chk["rule"], "samples": samples[:12] or ["none"],
                       "per_generator": per, "build_s": round(t_build, 1)},
          "assumptions": chk.get("assumptions", []),
          "wall_s": round(time.time() - t0, 1), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(outdir, ignore_errors=True)
    log(f"{pid}: {evals} cases, {len(distinct)} distinct non-trivial, "
        f"build {t_build:.0f}s, total {time.time()-t0:.0f}s, status {status}")
    return status


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--build")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    if a.setup:
        make_overlay()
        log("setup done")
        return 0
    if a.build:
        ids = CHECKS if a.build == "all" else a.build.split(",")
        names = job_bins([j for i in ids for j in CHECKS[i]["jobs"]])
        return 0 if build_bins(names) else 2
    if a.replay:
        d = json.load(open(a.replay))
        exes = build_bins([d["bin"], *[t for c in CHECKS.values() for j in c["jobs"]
                                     if j["bin"] == d["bin"] for t in j.get("tools", [])]])
        if exes is None:
            return 2
        f, txt = replay(exes[d["bin"]], {"prop": d["prop"], "np": d["np"]}, os.path.abspath(a.replay))
        log(txt)
        return 1 if f else 0
    return run_property(a.prop, a.tier, a.seed)


if __name__ == "__main__":
    sys.exit(main())
