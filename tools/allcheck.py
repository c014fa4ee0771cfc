#!/usr/bin/env python3
"""allcheck.py: runs every witness and rule of the quick tier once and prints, as JSON, what each property's check would report."""
import sys, os, re, json, multiprocessing
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "engine")]
sys.setrecursionlimit(20000)
import check, plan
from interp import Program


def main():
    os.makedirs(check.B, exist_ok=True)
    jobs, users = {}, {}
    broken = []
    for p in os.environ.get("SKIP", "").split():
        plan.PLAN.pop(p, None)
    for p, d in plan.PLAN.items():
        for cfg, pat, opts in d["entries"]["quick"]:
            if cfg in broken:
                continue
            if cfg not in check.PROG:
                try:
                    check.PROG[cfg] = Program(check.dump(cfg))
                except check.Broken as e:
                    broken.append(cfg)
                    if len(sys.argv) > 1:
                        print(str(e)[-800:], file=sys.stderr)
                    continue
            for e in check.PROG[cfg].roots:
                if re.match("(?:%s)$" % pat, e):
                    k = (cfg, e, tuple(sorted(opts.items())))
                    jobs[k] = (cfg, e, opts)
                    users.setdefault(k, set()).add(p)
    keys = sorted(jobs)
    with multiprocessing.get_context("fork").Pool(int(os.environ.get("JOBS", 8)), maxtasksperchild=4) as pool:
        outs = pool.map(check.work, [jobs[k] for k in keys], chunksize=1)
    if os.environ.get("SLOW"):
        for o in sorted(outs, key=lambda o: -o["s"])[:int(os.environ["SLOW"])]:
            print(o["s"], o["cfg"], o["entry"], o["stats"].get("steps"), file=sys.stderr)
    viol, und = {}, {}
    per = {}
    for k, o in zip(keys, outs):
        for p in users[k]:
            for r in o["results"]:
                if r["prop"] == p or plan.PLAN[p].get("every") or check.stray(r):
                    per.setdefault(p, []).append(r)
                    if r["status"] == "violation":
                        viol.setdefault(p, []).append("%s/%s: %s" % (k[0], k[1], r["what"]))
                    elif r["status"] == "undecided":
                        und.setdefault(p, []).append("%s/%s: %s" % (k[0], k[1], r["what"]))
            for u, _ in o["undecided"]:
                und.setdefault(p, []).append("%s/%s: %s" % (k[0], k[1], u[:150]))
    for p, d in plan.PLAN.items():
        check.RESULTS = per.get(p, [])
        for rule in d["rules"]:
            try:
                c, v, u = rule(check)
            except Exception as e:
                c, v, u = {}, [], [repr(e)]
            if v:
                viol.setdefault(p, []).extend(x[0] for x in v)
            if u:
                und.setdefault(p, []).extend(u)
    print(json.dumps(dict(violations={p: [len(x)] + x[:3] for p, x in sorted(viol.items())}, undecided={p: [len(x)] + x[:2] for p, x in sorted(und.items())}, broken=broken)))


main()
