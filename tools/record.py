#!/usr/bin/env python3
"""Run by hand, never by a check: list the cases a property fails on, or record
those whose message matches a regular expression under one known finding.

  record.py PID TIER [--variant V]                      show unlisted failures by message
  record.py PID TIER --match REGEX --what TEXT          record them under TEXT
"""
import argparse, collections, json, os, re, shutil, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import vf
from props import PROPS

a = argparse.ArgumentParser()
a.add_argument("pid"); a.add_argument("tier"); a.add_argument("--match"); a.add_argument("--what"); a.add_argument("--variant")
o = a.parse_args()
r = PROPS[o.pid]["runs"][0]
v = o.variant or (r["tvariant"] if o.tier == "thorough" else r["variant"])
exe = vf.build([(r["harness"], v, tuple(r["uses"]))])[(r["harness"], v)]
wd = os.path.join(vf.BUILD, "work", "record.%d" % os.getpid())
os.makedirs(wd)
ids = [c for f in vf.known(o.pid) for c in f["cases"]]
open(os.path.join(wd, "known"), "w").write("\n".join(ids) + "\n")
t0 = time.time()
t, broken = vf.run_shards(exe, o.pid, o.tier, 1, wd, list(r["args"]) + ["--known", os.path.join(wd, "known"), "--max-violations", "1000000"], vf.NPROC)
shutil.rmtree(wd)
new = [x for x in t["violations"] if x["id"] not in set(ids)]
gone = set(ids) - {x["id"] for x in t["violations"]}
k = collections.defaultdict(list)
for x in new:
    k[re.sub(r"[-0-9.e+]+", "#", x["msg"].split(" [")[0])[:110]].append(x["id"] + " :: " + x["msg"][:200])
for m, l in sorted(k.items(), key=lambda q: -len(q[1]))[:25]:
    print(len(l), m, "\n      ", "\n       ".join(l[:3]))
print(o.pid, o.tier, v, "new", len(new), "listed but passing at this tier", len(gone), {q: t[q] for q in ("enumerated", "executed", "transitions", "nontrivial", "comparisons", "distinct", "complete")}, t["counters"], "%.0fs" % (time.time() - t0))
print("\n".join(broken)[:1500])
if o.match and o.what:
    p = os.path.join(vf.ROOT, "known_findings.json")
    d = json.load(open(p))
    f = next((f for f in d["findings"] if f["property"] == o.pid and f["what"] == o.what), None)
    if not f:
        f = {"property": o.pid, "what": o.what, "cases": []}
        d["findings"].append(f)
    add = [x["id"] for x in new if re.search(o.match, x["msg"])]
    f["cases"] = sorted(set(f["cases"]) | set(add))
    open(p, "w").write(json.dumps(d, indent=1) + "\n")
    print("recorded", len(add), "now", len(f["cases"]))
