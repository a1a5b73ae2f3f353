#!/usr/bin/env python3
"""Decides one property: builds the library from /repo's working tree together with the
property's harness, exhausts the harness' decision trees on the real code and reports.

    check.py <ID> quick|thorough
    check.py <ID> replay <file>
    check.py setup                  (compile check of every harness)
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("SLIDE_REPO", "/repo"))
SRC = REPO / "src"
NCPU = os.cpu_count() or 8
SEED = int(os.environ.get("VERIF_SEED", "1"))

# Library sources (whatever is there now; the programs' mains are left out)
EXCLUDE = {"main.cpp", "paperCode.cpp"}

CONF = json.loads((VERIF / "harness" / "conf.json").read_text())


def sources(groups):
    """the sources the project's own CMakeLists name (some .cpp files in src are not part of any target)"""
    out = []
    for cm in sorted(SRC.rglob("CMakeLists.txt")):
        text = re.sub(r"#.*", "", cm.read_text())
        for name in re.findall(r"[\w./-]+\.cpp\b", text):
            p = (cm.parent / name).resolve()
            rel = p.relative_to(SRC.resolve())
            if p.is_file() and rel.name not in EXCLUDE and rel.parts[0] in groups and SRC / rel not in out:
                out.append(SRC / rel)
    return sorted(out)


BASEFLAGS = ["-std=c++20", "-O2", "-g1", "-w", "-pthread", "-DSLIDE_VERIF", "-D_GLIBCXX_ASSERTIONS"] + os.environ.get("MC_FLAGS", "").split()  # MC_FLAGS: development only


def treehash(flags):
    h = hashlib.sha256()
    for p in sorted(SRC.rglob("*")):
        if p.suffix in (".hpp", ".cpp", ".h") and p.is_file():
            h.update(str(p.relative_to(SRC)).encode())
            h.update(p.read_bytes())
    h.update(" ".join(flags).encode())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return r.returncode, r.stdout


class BuildError(Exception):
    pass


def build(pid):
    """-> list of (label, executable)"""
    exes = []
    jobs = []
    links = []
    bdir = VERIF / "build"
    bdir.mkdir(exist_ok=True)
    for b in CONF[pid]["builds"]:
        cxx = b.get("cxx", "g++")
        flags = BASEFLAGS + b.get("flags", [])
        hsrc = VERIF / "harness" / b["src"]
        hh = hashlib.sha256()
        for p in sorted((VERIF / "harness").glob("*.hpp")):
            hh.update(p.read_bytes())
        hh.update(hsrc.read_bytes())
        for x in b.get("extra", []):
            hh.update((VERIF / "harness" / x).read_bytes())
        th = treehash([cxx] + flags)
        od = bdir / th
        od.mkdir(exist_ok=True)
        objs = []
        incs = ["-I" + str(SRC), "-I" + str(VERIF / "harness")] + ["-I" + str(c.parent) for c in sorted(SRC.rglob("CMakeLists.txt")) if c.parent != SRC]
        todo = []
        for s in sources(b.get("groups", ["cells", "modules", "cooling", "power_conversion", "system", "procedures"])):
            o = od / ("lib_" + str(s.relative_to(SRC)).replace("/", "_") + ".o")
            objs.append(o)
            todo.append((o, [cxx, *flags, *incs, "-c", str(s), "-o"]))
        ho = od / (hsrc.stem + "_" + hh.hexdigest()[:12] + ".o")
        objs.append(ho)
        hflags = [f for f in flags if f not in b.get("lib_only", [])]
        todo.append((ho, [cxx, *hflags, *incs, "-c", str(hsrc), "-o"]))
        for x in b.get("extra", []):
            xs = VERIF / "harness" / x
            xo = od / (xs.stem + "_" + hashlib.sha256(xs.read_bytes()).hexdigest()[:12] + ".o")
            objs.append(xo)
            todo.append((xo, [cxx, *hflags, *incs, "-c", str(xs), "-o"]))
        exe = od / (hsrc.stem + "_" + hh.hexdigest()[:12] + b.get("suffix", ""))
        for o, c in todo:
            if not o.exists() and (o, c) not in jobs:
                jobs.append((o, c))
        links.append((exe, [cxx, "-pthread", *os.environ.get("MC_FLAGS", "").split(), *b.get("ldpre", []), *[str(o) for o in objs], *b.get("ldflags", []), "-o"]))
        exes.append((b.get("label", hsrc.stem), exe))

    def doit(j):
        o, c = j
        if o.exists():
            return None
        tmp = o.with_suffix(".tmp%d.o" % os.getpid())
        rc, out = run(c + [str(tmp)])
        if rc != 0:
            return "compilation failed: " + " ".join(c) + "\n" + out[-6000:]
        os.replace(tmp, o)
        return None

    with ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(doit, jobs) if e]
    if errs:
        raise BuildError(errs[0])

    def link(l):
        exe, c = l
        if exe.exists():
            return None
        tmp = str(exe) + ".tmp%d" % os.getpid()
        rc, out = run(c + [tmp])
        if rc != 0:
            return "link failed\n" + out[-6000:]
        os.replace(tmp, exe)
        return None

    with ThreadPoolExecutor(4) as ex:
        errs = [e for e in ex.map(link, links) if e]
    if errs:
        raise BuildError(errs[0])
    return exes


def prune_builds(keep_bytes=3 << 30):
    bdir = VERIF / "build"
    if not bdir.exists():
        return
    ds = sorted((d for d in bdir.iterdir() if d.is_dir()), key=lambda d: d.stat().st_mtime, reverse=True)
    tot = 0
    for d in ds:
        tot += sum(f.stat().st_size for f in d.rglob("*") if f.is_file())
        if tot > keep_bytes and time.time() - d.stat().st_mtime > 7200:
            shutil.rmtree(d, ignore_errors=True)


def known():
    k = {}
    f = VERIF / "known_findings.jsonl"
    if f.exists():
        for l in f.read_text().splitlines():
            if l.strip():
                e = json.loads(l)
                if e.get("status") == "known":
                    k[(e["property"], e["key"])] = e
    return k


def call(exe, args, timeout):
    """run the explorer in its own process group so that nothing survives it"""
    env = dict(os.environ, SLIDE_DATA=str(REPO / "data"))
    p = subprocess.Popen([str(exe), *args], env=env, start_new_session=True,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return 99, out + "\n(time limit)"
    return p.returncode, out


def main():
    if sys.argv[1] == "setup":
        for pid in sorted(CONF):
            try:
                build(pid)
                print("built", pid, flush=True)
            except BuildError as e:
                print("cannot build", pid, str(e)[-1500:])
                return 1
        return 0
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    t0 = time.time()
    try:
        exes = build(pid)
    except BuildError as e:
        print(e)
        print("check %s: the library or the harness does not compile" % pid)
        return 2
    prune_builds()
    if tier == "replay":
        r = json.loads(Path(sys.argv[3]).read_text())
        exe = dict(exes)[r["build"]]
        with tempfile.TemporaryDirectory(prefix="slide-mc-") as tmp:
            rc, out = call(exe, ["--tmp", tmp, "--tier", r["tier"], "--replay", r["scenario"] + ":" + r["path"]], 900)
        print(out)
        return rc
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    budget = (650 if tier == "quick" else 5 * 3600) - (time.time() - t0)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, executions=0, checks=0,
               pruned=0, scenarios={}, covered=[], samples=[], exhaustive=True)
    viol = []
    bad = 0
    for label, exe in exes:
        tmp = tempfile.mkdtemp(prefix="slide-mc-")
        try:
            left = budget - (time.time() - t0)
            out = os.path.join(tmp, "result.json")
            args = ["--tmp", tmp, "--out", out, "--tier", tier, "--workers", str(NCPU),
                    "--deadline", str(max(30, left - 30))]
            if only:
                args += ["--only", only]
            rc, log = call(exe, args, max(60, left + 60))
            if not os.path.exists(out) or os.path.getsize(out) == 0:
                print(log[-3000:])
                print("check %s: explorer %s gave no result (exit %d)" % (pid, label, rc))
                bad += 1
                continue
            r = json.loads(Path(out).read_text())
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        cov["states"] += r["states"]
        cov["transitions"] += r["transitions"]
        cov["traces_validated_against_impl"] += r["complete_executions"]
        cov["executions"] += r["executions"]
        cov["checks"] += r["checks"]
        cov["pruned"] += r["pruned"]
        cov["exhaustive"] = cov["exhaustive"] and r["exhaustive"]
        for k, v in r["scenarios"].items():
            cov["scenarios"][label + ":" + k if len(exes) > 1 else k] = v
        cov["covered"] += r["covered"]
        cov["samples"] += r["samples"][:4]
        for v in r["violations"]:
            v["build"] = label
            viol.append(v)
    if bad and not viol:
        return 2
    # vacuity: situations the exploration must have reached
    missing = [m for m in CONF[pid].get("must_cover", []) if not any(m in c for c in cov["covered"])]
    kn = known()
    new, listed = [], []
    for v in viol:
        (listed if (pid, v["key"]) in kn else new).append(v)
    for v in listed:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, kn[(pid, v["key"])]["what"], v["key"]))
    rdir = VERIF / "replay"
    rc = 0
    for v in new:
        if not v["reproduced"]:
            print("note: not reproduced on re-execution, not reported: %s %s" % (v["key"], v["msg"]))
            cov["exhaustive"] = False
            continue
        rdir.mkdir(exist_ok=True)
        f = rdir / ("%s-%s.json" % (pid, hashlib.sha256((v["key"]).encode()).hexdigest()[:10]))
        f.write_text(json.dumps(dict(property=pid, build=v["build"], tier=tier, scenario=v["scenario"], path=v["path"],
                                     key=v["key"], msg=v["msg"], trace=v["trace"]), indent=1))
        print("  %s: %s" % (v["key"], v["msg"]))
        for t in v["trace"][-25:]:
            print("      " + t)
        print("VIOLATION property=%s replay=%s" % (pid, f))
        rc = 1
    cov["known_findings_seen"] = len(listed)
    cov["explanation"] = CONF[pid].get("explanation", "")
    if not only:
        ev = dict(property=pid, tier=tier if tier in ("quick", "thorough") else "quick", seed=SEED, level="model_checking", coverage=cov,
                  assumptions=CONF[pid].get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=sum(1 for v in new if v["reproduced"]))
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (pid + ".json")).write_text(json.dumps(ev, indent=1))
    print("%s %s: %d executions, %d transitions, %d states, %d checks, exhaustive=%s, %d new violation(s), %d known, %.1f s"
          % (pid, tier, cov["traces_validated_against_impl"], cov["transitions"], cov["states"], cov["checks"], cov["exhaustive"],
             len(new), len(listed), time.time() - t0))
    if rc == 0 and missing and not only:
        print("check %s: the exploration never reached: %s" % (pid, missing))
        if cov["exhaustive"]:  # else the time ran out, which the evidence says
            return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
