#!/usr/bin/env python3
"""seed.py ID: (re)writes seeded/ID from tools/seeds/ID.py, which defines
PROP, NEEDS, BREAKS, EDITS = [(file, old, new)], DEMO (main.rs), FEATURES (optional), DEPS (optional).
With --test: runs the demonstration with and without the change, and the property's check on it."""
import os, sys, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO_SH = '''#!/bin/bash
# Exits 0 if the behaviour is right. Builds a small program against the crates in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=/tmp/oauth1-demo-scratch/@ID@
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cp /opt/vp/locks/root.lock "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
oauth1-request = { path = "$repo/oauth1-request", default-features = false, features = [@FEATURES@] }
oauth-credentials = { path = "$repo/oauth-credentials", features = [@CRED@] }
@DEPS@
[patch.crates-io]
oauth-credentials = { path = "$repo/oauth-credentials" }
oauth1-request = { path = "$repo/oauth1-request" }
oauth1-request-derive = { path = "$repo/oauth1-request-derive" }
EOF
cd "$d" || exit 2
export CARGO_TARGET_DIR=/tmp/oauth1-demo-scratch/target
cargo run --offline -q @ARGS@ 2>&1 | tail -n 20
exit "${PIPESTATUS[0]}"
'''


def sh(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(i):
    ns = {}
    exec(open(os.path.join(V, "tools/seeds", i + ".py")).read(), ns)
    assert not sh("git", "-C", R, "status", "--short").stdout.strip(), "/repo is not clean"
    d = os.path.join(V, "seeded", i)
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in ns["EDITS"]:
            p = os.path.join(R, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(os.path.join(d, "patch.diff"), "w").write(sh("git", "-C", R, "diff").stdout)
        demo = DEMO_SH.replace("@ID@", i).replace("@FEATURES@", ns.get("FEATURES", '"std", "alloc", "derive", "hmac-sha1"')).replace("@CRED@", ns.get("CRED", "")).replace("@DEPS@", ns.get("DEPS", "")).replace("@ARGS@", ns.get("ARGS", ""))
        if "DEMO_SH" in ns:
            demo = ns["DEMO_SH"]
        open(os.path.join(d, "demo.sh"), "w").write(demo)
        open(os.path.join(d, "demo.rs"), "w").write(ns["DEMO"])
        json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        if "--test" in sys.argv:
            r = sh("bash", d + "/demo.sh", cwd=R)
            print(i, "demo with the change:", r.returncode, "" if r.returncode else r.stdout[-500:])
            if r.returncode and "error" in r.stdout and ("could not compile" in r.stdout):
                print(r.stdout[-1500:])
            r = sh("python3", "check.py", ns["PROP"], cwd=V)
            print(i, "check:", r.returncode, *[l[:230] for l in r.stdout.splitlines() if l.startswith(("VIOL", "UNDEC", "  ", "C"))][:int(os.environ.get("L", "4"))], sep="\n   ")
            if "--tests" in sys.argv:
                sh("bash", "/opt/vp/build.sh", cwd=R)
                sh("bash", "/opt/vp/test.sh", "/tmp/seed-out.json", cwd=R)
                b = json.load(open("/opt/vp/BASELINE.json"))
                o = json.load(open("/tmp/seed-out.json"))
                st = b.get("stable") or b.get("passed") or b
                bad = [t for t in st if t not in (o.get("passed") or [])]
                print(i, "stable tests failing:", bad[:5])
    finally:
        sh("git", "-C", R, "checkout", "--", ".")
    if "--test" in sys.argv:
        r = sh("bash", d + "/demo.sh", cwd=R)
        print(i, "demo without the change:", r.returncode, "" if not r.returncode else r.stdout[-800:])


for a in sys.argv[1:]:
    if not a.startswith("--"):
        main(a)
