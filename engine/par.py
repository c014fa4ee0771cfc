"""par.py CONFIG PATTERN: analyses all matching witnesses in parallel (for development)."""
import sys, re, os, multiprocessing
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/engine"); sys.setrecursionlimit(20000)
import check
from interp import Program
cfg, pat = sys.argv[1], sys.argv[2]
opts = eval(sys.argv[3]) if len(sys.argv) > 3 else {}
check.PROG[cfg] = Program(check.dump(cfg))
es = [e for e in sorted(check.PROG[cfg].roots) if re.match(pat + "$", e)]
with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=4) as pool:
    for o in pool.imap_unordered(check.work, [(cfg, e, opts) for e in es], chunksize=1):
        c = {}
        for r in o["results"]:
            c[(r["prop"], r["status"])] = c.get((r["prop"], r["status"]), 0) + 1
        print(o["entry"], "%ss" % o["s"], " ".join("%s:%s=%d" % (p, s, n) for (p, s), n in sorted(c.items())), o["stats"]["steps"])
        seen = set()
        for r in o["results"]:
            if r["status"] != "ok" and (r["prop"], r["what"]) not in seen:
                seen.add((r["prop"], r["what"]))
                print("     ", r["prop"], r["what"], r["status"], r["detail"][:300], "@", (r["where"] or [""])[:3])
        for k, w in o["undecided"]:
            print("      note", k[:200], [x[:150] for x in (w[:3] if "trace" not in k else w)])
