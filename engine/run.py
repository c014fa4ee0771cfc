import sys, os
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, "/verif/engine")
from interp import *
from models import Models
import probes, lib_slice, lib_vec, lib_crypto, lib_env, lib_std
import time

def main():
    p = Program(sys.argv[1])
    pat = sys.argv[2] if len(sys.argv) > 2 else ""
    for name in sorted(p.roots):
        if pat not in name:
            continue
        t = time.time()
        I = Interp(p, Models(), wide='-x' not in sys.argv, unroll=int(next((a[2:] for a in sys.argv if a.startswith('-u')), 1)))
        I.trace = "-t" in sys.argv
        I.run(name)
        print("==", name, "%.2fs" % (time.time() - t), I.stats)
        seen = set()
        for r in I.results:
            k = (r["prop"], r["what"], r["status"], r["detail"])
            if k in seen: continue
            seen.add(k)
            print("  ", r["prop"], r["what"], r["status"].upper(), r["detail"])
            if r["status"] != "ok":
                for w in r["where"][:6]: print("        ", w)
        for k, v in I.undecided.items():
            print("   note", k)
            for w in (v or [])[:8]: print("        ", w)
if __name__ == "__main__":
    main()
