#!/usr/bin/env python3
"""Driver: builds the harnesses from /repo's current working tree, runs the
bounded-exhaustive explorations in parallel shards, filters known findings,
writes evidence and prints the verdict.

  vf.py setup                  build everything (fills the object cache)
  vf.py check ID               run a property's check (tier from VERIF_TIER)
  vf.py replay ID CASE         rerun one case verbosely
  vf.py manifest               regenerate MANIFEST.json from props.py
"""
import concurrent.futures, hashlib, json, os, re, shutil, struct, subprocess, sys, threading, time

ROOT = os.environ.get("VERIF_ROOT", os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
GEN = os.path.join(BUILD, "gen")
CACHE = os.path.join(BUILD, "cache")
H = os.path.join(ROOT, "harness")
NPROC = max(2, min(16, os.cpu_count() or 8))

LIB = """src/KeyTraits.cc src/predicates.cc src/PLC_CSG.cc src/QuantizedTessellation2d.cc
src/QuantizedTessellation3d.cc src/clipQuantizedTessellation2d.cc src/clipQuantizedTessellation3d.cc
src/snapToBoundary.cc src/MeshEditor.cc src/BoostTessellator.cc src/DistributedTessellator.cc
src/SerialDistributedTessellator.cc src/ErrorHandler.cc src/polytope_internal_abort.cc""".split()
SILO = "src/SiloWriter_2d.cc src/SiloWriter_3d.cc src/SiloReader_2d.cc src/SiloReader_3d.cc src/SiloUtils.cc".split()
CAPI = "polytope_c/polytope_c.cc polytope_c/polytope_plc.cc polytope_c/polytope_tessellator.cc polytope_c/polytope_tessellation.cc polytope_c/polytope_write_silo.cc".split()
UNBUILT = "src/BoostOrphanage.cc src/TetgenTessellator.cc src/TriangleTessellator.cc src/VoroPP_2d.cc src/VoroPP_3d.cc polytope_c/polytope_read_silo.cc".split()
SILO_LIBS = ["-L/usr/lib/x86_64-linux-gnu", "-l:libsiloh5.so", "-L/usr/lib/x86_64-linux-gnu/hdf5/serial", "-lz"]

VARIANTS = {
    "opt": ["-O2"],
    "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"],
}
COMMON = ["-DLINUX=1", "-DBoost_FOUND=1", "-DNDEBUG", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS",
          "-DBOOST_ALLOW_DEPRECATED_HEADERS", "-w", "-fPIC"]
INC = ["-I" + GEN, "-I" + os.path.join(H, "fakempi"), "-I" + H, "-I" + REPO + "/src",
       "-I" + REPO + "/polytope_c", "-I/usr/include/hdf5/serial"]

_sha_lock = threading.Lock()
_sha = {}


def sha_file(p):
    with _sha_lock:
        if p in _sha:
            return _sha[p]
    try:
        with open(p, "rb") as f:
            h = hashlib.sha256(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _sha_lock:
        _sha[p] = h
    return h


def sha_s(s):
    return hashlib.sha256(s.encode()).hexdigest()


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    tmp = path + ".%d" % os.getpid()
    open(tmp, "w").write(text)
    os.replace(tmp, path)


def generate():
    """The two headers CMake generates, for the configuration the baseline build uses."""
    on = {"HAVE_MPI", "HAVE_HDF5", "HAVE_SILO", "HAVE_BOOST", "HAVE_BOOST_VORONOI"}
    subst = {"POLYTOPE_VERSION_MAJOR": "1", "POLYTOPE_VERSION_MINOR": "0", "C_REAL_TYPE": "double"}
    for src, dst in (("src/polytope.hh.in", "polytope.hh"), ("polytope_c/polytope_c.h.in", "polytope_c.h")):
        out = []
        for line in open(os.path.join(REPO, src)):
            m = re.match(r"\s*#cmakedefine\s+(\w+)", line)
            if m:
                out.append("#define %s\n" % m.group(1) if m.group(1) in on else "/* #undef %s */\n" % m.group(1))
            else:
                out.append(re.sub(r"@(\w+)@", lambda k: subst.get(k.group(1), ""), line))
        write_if_changed(os.path.join(GEN, dst), "".join(out))


class BuildError(Exception):
    pass


def compile_one(src, flags, inc=None):
    """Compile src with a content-hashed object cache; returns the object path."""
    cmd = ["g++"] + flags + COMMON + (inc or INC)
    key = sha_s(src + "\0" + "\0".join(cmd))[:32]
    mf = os.path.join(CACHE, key + ".json")
    entries = []
    try:
        entries = json.load(open(mf))
    except (OSError, ValueError):
        entries = []
    for e in entries:
        obj = os.path.join(CACHE, e["obj"])
        if os.path.exists(obj) and all(sha_file(p) == h for p, h in e["deps"].items()):
            return obj
    tmp = os.path.join(CACHE, "%s.%d.%d" % (key, os.getpid(), threading.get_ident()))
    dep = tmp + ".d"
    p = subprocess.run(cmd + ["-MD", "-MF", dep, "-c", src, "-o", tmp + ".o"], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, p.stdout[-4000:]))
    text = open(dep).read().replace("\\\n", " ")
    files = text.split(":", 1)[1].split()
    deps = {}
    for f in files:
        f = os.path.abspath(f)
        if f.startswith(REPO + "/") or f.startswith(ROOT + "/"):
            deps[f] = sha_file(f)
    objname = "%s.%s.o" % (key, sha_s(json.dumps(deps, sort_keys=True))[:16])
    os.replace(tmp + ".o", os.path.join(CACHE, objname))
    os.remove(dep)
    entries = [e for e in entries if e["obj"] != objname][-3:] + [{"obj": objname, "deps": deps}]
    write_if_changed(mf, json.dumps(entries))
    return os.path.join(CACHE, objname)


def link(name, objs, libs, variant):
    key = sha_s("\0".join(sorted(os.path.basename(o) for o in objs)) + "\0".join(libs) + variant)[:16]
    exe = os.path.join(BUILD, "bin", "%s.%s.%s" % (name, variant, key))
    if os.path.exists(exe):
        return exe
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    for old in os.listdir(os.path.dirname(exe)):       # keep the disk small
        if old.startswith("%s.%s." % (name, variant)):
            try:
                os.remove(os.path.join(os.path.dirname(exe), old))
            except OSError:
                pass
    tmp = "%s.%d" % (exe, os.getpid())
    p = subprocess.run(["g++"] + [f for f in VARIANTS[variant] if f.startswith("-fsan")] + ["-o", tmp] + objs + libs,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError("linking %s failed:\n%s" % (name, p.stdout[-4000:]))
    os.replace(tmp, exe)
    return exe


def build(specs):
    """specs: list of (harness, variant, uses) -> {(harness, variant): exe}"""
    os.makedirs(CACHE, exist_ok=True)
    generate()
    jobs = {}
    with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
        def submit(src, flags, inc=None):
            k = (src, tuple(flags))
            if k not in jobs:
                jobs[k] = ex.submit(compile_one, src, flags, inc)
            return jobs[k]
        plan = []
        for harness, variant, uses in specs:
            fl = VARIANTS[variant]
            fs = [submit(os.path.join(H, harness + ".cc"), ["-std=c++14"] + fl)]
            fs.append(submit(os.path.join(H, "fakempi", "fmpi.cc"), ["-std=c++14"] + fl))
            libs = []
            if "lib" in uses:
                order = LIB + SILO + (CAPI if "capi" in uses else [])
                known = set(LIB + SILO + CAPI + UNBUILT)
                for d in ["src"] + (["polytope_c"] if "capi" in uses else []):      # sources added to the tree
                    order = order + sorted(x for x in (d + "/" + f for f in os.listdir(os.path.join(REPO, d))) if x.endswith(".cc") and x not in known)
                for s in order:
                    fs.append(submit(os.path.join(REPO, s), ["-std=c++14"] + fl))
                libs = SILO_LIBS
            plan.append((harness, variant, fs, libs))
        out = {}
        for harness, variant, fs, libs in plan:
            out[(harness, variant)] = (harness, [f.result() for f in fs], libs, variant)
        res = {k: ex.submit(link, *v) for k, v in out.items()}
        return {k: v.result() for k, v in res.items()}


def run_shards(exe, prop, tier, seed, workdir, extra, nshards):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigfpe=0:abort_on_error=1:detect_stack_use_after_return=0:allocator_may_return_null=1:malloc_context_size=8"
    env["VERIF_SCRATCH"] = workdir
    procs = []
    for i in range(nshards):
        out = os.path.join(workdir, "shard%d.json" % i)
        log = open(os.path.join(workdir, "shard%d.log" % i), "wb")
        procs.append((i, out, subprocess.Popen(
            [exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--shard", str(i), "--nshards", str(nshards), "--out", out] + extra,
            stdout=log, stderr=log, env=env, cwd=workdir)))
    total = {"complete": True, "enumerated": 0, "executed": 0, "transitions": 0, "nontrivial": 0, "comparisons": 0, "counters": {}, "samples": [], "violations": []}
    distinct = set()
    broken = []
    for i, out, p in procs:
        p.wait()
        try:
            r = json.load(open(out))
        except (OSError, ValueError):
            tail = open(os.path.join(workdir, "shard%d.log" % i), "rb").read()[-2000:].decode("utf8", "replace")
            broken.append("shard %d ended with %s and no result\n%s" % (i, p.returncode, tail))
            continue
        total["complete"] &= r["complete"]
        total["enumerated"] = max(total["enumerated"], r["enumerated"])
        for k in ("executed", "transitions", "nontrivial", "comparisons"):
            total[k] += r[k]
        for k, v in r["counters"].items():
            total["counters"][k] = total["counters"].get(k, 0) + v
        total["samples"] += r["samples"]
        total["violations"] += r["violations"]
        if os.path.exists(out + ".distinct"):
            d = open(out + ".distinct", "rb").read()
            distinct.update(struct.unpack("<%dQ" % (len(d) // 8), d))
    total["distinct"] = len(distinct)
    return total, broken


def known(prop):
    try:
        data = json.load(open(os.path.join(ROOT, "known_findings.json")))
    except OSError:
        return []
    return [f for f in data["findings"] if f["property"] == prop]


def check(prop):
    from props import PROPS
    spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 3 and sys.argv[3] in ("quick", "thorough"):
        tier = sys.argv[3]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    runs = spec["runs"]
    try:
        runs = [dict(r, variant=r["tvariant"] if tier == "thorough" else r["variant"]) for r in runs]
        exes = build([(r["harness"], r["variant"], tuple(r["uses"])) for r in runs])
    except BuildError as e:
        print("CHECK-ERROR property=%s cannot build: %s" % (prop, e))
        return 2
    tb = time.time() - t0
    work = os.path.join(BUILD, "work", "%s.%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    totals, broken = [], []
    for k, r in enumerate(runs):
        wd = os.path.join(work, str(k))
        os.makedirs(wd)
        exe = exes[(r["harness"], r["variant"])]
        ex = list(r["args"])
        ids = [c for f in known(prop) for c in f["cases"]]
        if ids:
            write_if_changed(os.path.join(wd, "known"), "\n".join(ids) + "\n")
            ex += ["--known", os.path.join(wd, "known")]
        t, b = run_shards(exe, prop, tier, seed, wd, ex, NPROC)
        t["run"] = k
        totals.append(t)
        broken += b
    viol = []
    for t in totals:
        for v in t["violations"]:
            viol.append((t["run"], v))
    kf = known(prop)
    kfids = {c: f for f in kf for c in f["cases"]}
    new = []
    hit = set()
    for k, v in viol:
        if v["id"] in kfids:
            hit.add(v["id"])
        else:
            new.append((k, v))
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": sum(t["distinct"] for t in totals),
            "transitions": sum(t["transitions"] for t in totals),
            "traces_validated_against_impl": sum(t["executed"] for t in totals),
            "comparisons_with_oracle": sum(t["comparisons"] for t in totals),
            "nontrivial_executions": sum(t["nontrivial"] for t in totals),
            "enumerated": sum(t["enumerated"] for t in totals),
            "exhaustive": all(t["complete"] for t in totals) and not broken,
            "counters": {k: v for t in totals for k, v in t["counters"].items()},
            "rule": spec["rule"],
            "samples": [s for t in totals for s in t["samples"]][:6],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "build_s": round(tb, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    write_if_changed(os.path.join(ROOT, "evidence", prop + ".json"), json.dumps(ev, indent=1) + "\n")
    for f in kf:
        k = len(hit & set(f["cases"]))
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, f["what"], "%d listed case(s) fail here" % k if k else "its cases are beyond this tier's bounds"))
    rc = 0
    if new:
        rd = os.path.join(BUILD, "replays")
        os.makedirs(rd, exist_ok=True)
        for n, (k, v) in enumerate(new[:5]):
            path = os.path.join(rd, "%s-%d.json" % (prop, n))
            write_if_changed(path, json.dumps({"property": prop, "run": k, "case": v["id"], "message": v["msg"],
                                               "replay": "python3 %s/vf.py replay %s '%s'" % (ROOT, prop, v["id"])}, indent=1) + "\n")
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  case %s: %s" % (v["id"], v["msg"][:1500]))
        rc = 1
    elif broken:
        # A worker that disappears without a verdict: the exploration did not
        # survive the implementation (e.g. memory exhaustion or _exit).
        print("CHECK-ERROR property=%s %s" % (prop, broken[0]))
        rc = 2
    print("%s %s: %d executions, %d distinct outcomes, %d transitions, %d comparisons, %d violation(s), build %.0fs, total %.0fs" % (
        prop, tier, ev["coverage"]["traces_validated_against_impl"], ev["coverage"]["states"],
        ev["coverage"]["transitions"], ev["coverage"]["comparisons_with_oracle"], len(new), tb, time.time() - t0))
    if rc == 0 or "VERIF_KEEP" not in os.environ:
        shutil.rmtree(work, ignore_errors=True)
    return rc


def replay(prop, case):
    from props import PROPS
    spec = PROPS[prop]
    runs = spec["runs"]
    exes = build([(r["harness"], r["variant"], tuple(r["uses"])) for r in runs])
    rc = 2
    for r in runs:
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = "detect_leaks=0:handle_segv=0:handle_abort=0:abort_on_error=1:detect_stack_use_after_return=0"
        for tier in ("quick", "thorough"):
            wd = os.path.join(BUILD, "work", "replay.%d" % os.getpid())
            os.makedirs(wd, exist_ok=True)
            env["VERIF_SCRATCH"] = wd
            p = subprocess.run([exes[(r["harness"], r["variant"])], "--prop", prop, "--tier", tier, "--replay", case] + r["args"], env=env, cwd=wd)
            shutil.rmtree(wd, ignore_errors=True)
            if p.returncode != 2:
                return p.returncode
    return rc


def setup():
    from props import PROPS
    specs = []
    for p in PROPS.values():
        for r in p["runs"]:
            s = (r["harness"], r["variant"], tuple(r["uses"]))
            if s not in specs:
                specs.append(s)
    build(specs)
    print("built %d harnesses" % len(specs))
    return 0


def manifest():
    from props import PROPS, NOT_APPLICABLE
    import props
    keys = ("title", "statement", "quantifier", "why_tests_cant", "anchors")
    lines = [json.dumps(dict([("id", pid)] + [(k, p[k]) for k in keys])) for pid, p in sorted(list(PROPS.items()) + list(props.UNCLAIMED.items()))]
    write_if_changed(os.path.join(ROOT, "properties.jsonl"), "\n".join(lines) + "\n")
    checks = []
    for pid in sorted(PROPS):
        p = PROPS[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "python3 vf.py check %s" % pid,
            "thorough_cmd": "python3 vf.py check %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["level_note"],
        })
    m = {"version": 1, "setup_cmd": "python3 vf.py setup", "checks": checks,
         "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
         "notes": props.NOTES}
    write_if_changed(os.path.join(ROOT, "MANIFEST.json"), json.dumps(m, indent=1) + "\n")
    return 0


if __name__ == "__main__":
    sys.path.insert(0, ROOT)
    a = sys.argv[1:]
    if a[:1] == ["check"]:
        sys.exit(check(a[1]))
    if a[:1] == ["replay"]:
        sys.exit(replay(a[1], a[2]))
    if a[:1] == ["setup"]:
        sys.exit(setup())
    if a[:1] == ["manifest"]:
        sys.exit(manifest())
    print(__doc__)
    sys.exit(2)
