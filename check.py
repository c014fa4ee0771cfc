#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current source."""
import sys, os, json, time, re, hashlib, subprocess, multiprocessing, fcntl, traceback, resource
if __name__ == "__main__" and os.environ.get("PYTHONHASHSEED") != "0":
    # so that every run goes the same way
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "engine"))
sys.setrecursionlimit(20000)
B = os.path.join(V, "build")
REPO = "/repo"


def sh(cmd, cwd=None, env=None, log=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if log:
        with open(log, "w") as f:
            f.write(r.stdout)
    return r.returncode, r.stdout


def files_under(*dirs):
    out = []
    for d in dirs:
        for p, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git", "build", "__pycache__"))
            out += [os.path.join(p, f) for f in sorted(fs)]
    return out


def digest(files):
    h = hashlib.sha256()
    for f in files:
        try:
            with open(f, "rb") as g:
                b = g.read()
        except OSError:
            continue
        h.update(f.encode() + b"\0" + hashlib.sha256(b).digest())
    return h.hexdigest()


START = time.time()
BUDGET = 600        # seconds after which no further witness is begun
MAXTIME = float(os.environ.get("MAXTIME") or 110)        # seconds for one analysis of a witness


class Broken(Exception):
    pass


def sysroot():
    return sh(["rustc", "+nightly", "--print", "sysroot"])[1].strip()


def driver():
    exe = os.path.join(V, "driver/target/debug/mirdump")
    src = files_under(os.path.join(V, "driver/src")) + [os.path.join(V, "driver/Cargo.toml")]
    stamp = os.path.join(V, "driver/target/stamp")
    d = digest(src)
    if not (os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == d):
        c, o = sh(["cargo", "+nightly", "build", "--offline", "-q"], cwd=os.path.join(V, "driver"))
        if c:
            raise Broken("the driver does not build:\n" + o[-3000:])
        with open(stamp, "w") as f:
            f.write(d)
    return exe


# name -> (crate directory, cargo arguments, extra RUSTFLAGS)
CONFIGS = {
    "full": ("witness", ["--features", "full"], "-Cdebug-assertions=on"),
    "fast": ("witness", ["--features", "full"], "-Cdebug-assertions=off"),
    "derived": ("witness", ["--features", "derived"], "-Cdebug-assertions=on"),
    "nostd": ("witness", ["--features", "most"], "-Cdebug-assertions=on"),
    "min": ("witness", ["--features", "min"], "-Cdebug-assertions=on"),
    "dev": ("witness", ["--features", "dev"], "-Cdebug-assertions=on"),  # engine tests; no check uses it
}


def dump(cfg):
    """Type-checks a witness crate against /repo and returns the dump of its monomorphised MIR."""
    crate, args, flags = CONFIGS[cfg]
    wdir = os.path.join(V, crate)
    exe = driver()
    repo = [f for f in files_under(REPO) if f.endswith((".rs", ".toml", ".md"))]
    key = digest(repo + files_under(wdir) + files_under(os.path.join(V, "driver/src")) + [os.path.join(V, "engine/stop.txt"), os.path.join(V, "engine/shims.txt")]) + cfg
    out = os.path.join(B, cfg + ".json")
    stamp = out + ".key"
    if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
        return out
    env = dict(CARGO_TARGET_DIR=os.path.join(B, "wit-" + cfg), MIRDUMP_CRATE=crate.replace("-", "_"), MIRDUMP_OUT=out,
               MIRDUMP_STOP=os.path.join(V, "engine/stop.txt"), MIRDUMP_SHIMS=os.path.join(V, "engine/shims.txt"),
               RUSTC_WRAPPER=exe, RUSTFLAGS="-Zalways-encode-mir -Zmir-opt-level=0 -Awarnings " + flags,
               LD_LIBRARY_PATH=sysroot() + "/lib")
    if os.path.exists(out):
        os.remove(out)
    os.utime(os.path.join(wdir, "src/lib.rs"))
    c, o = sh(["cargo", "+nightly", "check", "--offline"] + args, cwd=wdir, env=env)
    if c or not os.path.exists(out):
        raise Broken("the witness crate %s (%s) does not type-check against /repo:\n%s" % (crate, cfg, "\n".join(l[:400] for l in o.splitlines() if not l.startswith("  process didn"))[-4000:]))
    with open(stamp, "w") as f:
        f.write(key)
    return out


PROG = {}


def analyse(job, unroll, secs):
    cfg, entry, opts = job
    from interp import Interp
    from models import Models
    import probes, lib_slice, lib_vec, lib_crypto, lib_env, lib_std
    I = Interp(PROG[cfg], Models(), wide=opts.get("wide", True), unroll=unroll, max_steps=opts.get("steps", 20_000_000), max_time=secs)
    try:
        I.run(entry)
    except Exception as e:
        I.note("error", "analyser: %s: %s" % (type(e).__name__, str(e)[:300]))
        I.undecided[("trace", entry)] = traceback.format_exc().splitlines()[-8:]
    return I


def work(job):
    """Analyses one witness. What takes too long, or too much memory, is tried again with the loops
    joined at once; what has no result when the time of the whole check is up is left undecided."""
    cfg, entry, opts = job
    p = PROG[cfg]
    t = time.time()
    if resource.getrlimit(resource.RLIMIT_AS)[0] == resource.RLIM_INFINITY:
        resource.setrlimit(resource.RLIMIT_AS, (4500 << 20, resource.RLIM_INFINITY))
    unroll = opts.get("unroll", 1)
    left = max(1, min(MAXTIME, BUDGET - (t - START)))
    I = analyse(job, unroll, left)
    if unroll > 1 and not any(r["status"] == "violation" for r in I.results) and any(k[0] in ("limit", "error") for k in I.undecided):
        left = max(1, min(MAXTIME, BUDGET - (time.time() - START)))
        J = analyse(job, 1, left)
        if not any(k[0] in ("limit", "error") for k in J.undecided):
            I = J
    res = [dict(prop=r["prop"], what=r["what"], status=r["status"], detail=r["detail"], where=r["where"], plain=not (r.get("facts") and r["facts"].order)) for r in I.results]
    if I.stats.get("returns") and not any(r["prop"] == "C39" for r in res):
        res.append(dict(prop="C39", what="no path panics", status="ok", detail="%d paths return" % I.stats["returns"], where=[]))
    fns = sorted({(p.fns[f]["name"], p.files[p.fns[f]["body"]["span"][0]] if p.fns[f].get("body") and "span" in p.fns[f]["body"] else "") for f in I.fns_seen})
    return dict(cfg=cfg, entry=entry, results=res, undecided=[[" ".join(map(str, k))[:400], (w or [])[:8]] for k, w in I.undecided.items()],
                stats=I.stats, fns=fns, models=sorted(I.modelled) if I.modelled else [], lemmas=sorted(I.lemmas), s=round(time.time() - t, 2))


def stray(r):
    """A panic, or an endless loop, on a path about which nothing but lengths and bytes is assumed."""
    return r["prop"] == "C39" and r["status"] == "violation" and r.get("plain")


def known(prop):
    out = []
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    from plan import PLAN
    prop = sys.argv[1]
    if prop == "--setup":
        os.makedirs(B, exist_ok=True)
        driver()
        for c in ("full",):
            try:
                dump(c)
            except Broken as e:
                print(e)
        return 0
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    sys.modules[__name__].TIER = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    plan = PLAN[prop]
    viol = []      # (key, text)
    undecided = []
    cov = {}
    results = []
    lock = open(os.path.join(B, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        jobs = []
        lost = {}       # configurations that do not build, for the rules to say why
        from interp import Program
        for cfg, pat, opts in plan.get("entries", {}).get(tier) or plan.get("entries", {}).get("quick", []):
            if cfg not in PROG and cfg not in lost:
                try:
                    PROG[cfg] = Program(dump(cfg))
                except Broken as e:
                    if "rules" not in plan or cfg == "full":
                        raise
                    lost[cfg] = e
            if cfg in lost:
                continue
            n = 0
            for e in sorted(PROG[cfg].roots):
                if re.match("(?:%s)$" % pat, e):
                    n += 1
                    if (cfg, e) not in {j[:2] for j in jobs}:
                        jobs.append((cfg, e, opts))
            if not n and cfg != "min":
                raise Broken("no witness matches %s" % pat)
        fcntl.flock(lock, fcntl.LOCK_UN)
        outs = []
        if jobs:
            with multiprocessing.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=4) as pool:
                outs = list(pool.imap_unordered(work, jobs, chunksize=1))
        outs.sort(key=lambda o: (o["cfg"], o["entry"]))
        fns, models, lemmas, entries = set(), set(), set(), []
        stats = {}
        for o in outs:
            # a path that panics, or never ends, yields none of what the property promises
            mine = [r for r in o["results"] if plan.get("every") or r["prop"] == prop or stray(r)]
            results += mine
            entries.append(dict(witness=o["entry"], config=o["cfg"], obligations=len(mine), ok=sum(r["status"] == "ok" for r in mine), seconds=o["s"]))
            fns |= {tuple(f) for f in o["fns"]}
            models |= set(o["models"])
            lemmas |= set(o["lemmas"])
            for k, v in o["stats"].items():
                stats[k] = stats.get(k, 0) + v
            for k, w in o["undecided"]:
                undecided.append("%s/%s: %s | %s" % (o["cfg"], o["entry"], k, " < ".join(w[:5])))
            for r in mine:
                if r["status"] == "violation":
                    viol.append(("%s:%s" % (o["entry"], r["what"].replace(" ", "_")), "%s (%s): %s\n%s\nat %s" % (r["what"], o["entry"], prop, r["detail"], "\n   ".join(r["where"][:14]))))
                elif r["status"] == "undecided":
                    undecided.append("%s/%s: %s undecided: %s" % (o["cfg"], o["entry"], r["what"], r["detail"][:300]))
        if outs:
            repo_fns = sorted(n for n, f in fns if "oauth" in f and "/repo/" in f or f.startswith(("oauth", "/repo")))
            cov.update(obligations=len(results), discharged=sum(r["status"] == "ok" for r in results), entries=entries,
                       functions_analysed=len(fns), repo_functions=repo_fns, interpreter=stats, lemmas=sorted(lemmas), library_models=sorted(models))
        globals()["RESULTS"] = results
        for rule in plan.get("rules", []):
            c, v, u = rule(sys.modules[__name__] if __name__ != "__main__" else sys.modules["__main__"])
            for k, x in c.items():
                if isinstance(x, int) and k in cov:
                    cov[k] += x
                else:
                    cov[k] = x
            viol += v
            undecided += u
        if lost and not viol:
            raise next(iter(lost.values()))
    except Broken as e:
        print("UNDECIDED property=%s %s" % (prop, e))
        return 2
    status = 0
    seen = set()
    kn = known(prop)
    hit = set()
    n = 0
    for key, text in viol:
        if key in seen:
            continue
        seen.add(key)
        k = [x for x in kn if x[0] == key]
        if k:
            hit.add(key)
            print("KNOWN-FINDING: property=%s %s" % (prop, k[0][1]))
            continue
        n += 1
        d = os.path.join(B, "replay")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "%s-%d.txt" % (prop, n))
        with open(f, "w") as h:
            h.write(key + "\n" + text + "\n")
        print("VIOLATION property=%s replay=%s" % (prop, f))
        print("   " + text[:1500].replace("\n", "\n   "))
        status = 1
    und = sorted(set(undecided))
    for u in und[:20]:
        print("UNDECIDED property=%s %s" % (prop, u[:400]))
    level = plan["level"]
    cov["undecided"] = und[:50]
    cov["rule"] = plan["rule"]
    cov["explanation"] = plan["rule"]
    if level == "translation_validation":
        cov["programs"] = len(cov.get("entries", []))
        cov["disagreements_checked"] = cov.get("obligations", 0)
        cov["samples"] = [e["witness"] for e in cov.get("entries", [])[::40]]
    if level == "proof":
        cov.setdefault("checker_cmd", "python3 check.py " + prop)
        cov.setdefault("trusted_base", TRUST)
        cov.setdefault("obligations", 0)
        cov.setdefault("discharged", 0)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=plan.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=n)
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    ok = cov.get("obligations", 0)
    print("%s: %d obligations, %d discharged, %d violations, %d undecided, %.1fs" % (prop, ok, cov.get("discharged", 0), n, len(und), time.time() - t0))
    if status == 0 and cov.get("discharged", 0) < 1:
        print("UNDECIDED property=%s nothing was decided" % prop)
        return 2
    return status


TRUST = ["rustc's front end (type checking and MIR construction, nightly)", "the analyser in /verif/engine and the driver in /verif/driver",
         "the engine's models of the standard-library functions it does not analyse (listed in library_models)"]

if __name__ == "__main__":
    sys.exit(main())
