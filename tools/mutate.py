#!/usr/bin/env python3
"""mutate.py DIR N [SEED]: syntactic mutants of the repository, one at a time, in a private mount of /repo and /verif.
Run inside `unshare -m` with copies bound over both (see tools/lab.sh). Each mutant that builds and passes the stable
tests is given to tools/allcheck.py; the outcome is appended to DIR/log.jsonl."""
import os, re, sys, random, json, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../engine"))
R = "/repo"
out, n = sys.argv[1], int(sys.argv[2])
rnd = random.Random(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
only = sys.argv[4] if len(sys.argv) > 4 else ""


def blank_tests(s):
    m = re.search(r"#\[cfg\(test\)\]\s*mod tests", s)
    return s[:m.start()] if m else s


def sites(path):
    src = open(path).read()
    body = blank_tests(src)
    lines = body.split("\n")
    pos = 0
    for i, l in enumerate(lines):
        st = l.strip()
        code = l.split("//")[0]
        start = pos
        pos += len(l) + 1
        if not st or st.startswith(("//", "#[", "#!", "use ", "pub use", "extern", "mod ", "pub mod", "*")):
            continue
        if st.endswith(";") and not st.startswith(("let ", "return", "pub ", "type ", "const ", "fn ", "static ", "struct ", "}")) and re.match(r"^[\w\.\*&\(]", st):
            yield i, (start, start + len(l)), "", "delete statement"
        if st.startswith(".") and not st.endswith(("{",)) and st != ".":
            yield i, (start, start + len(l)), (";" if st.endswith(";") else "," if st.endswith(",") else ""), "delete call"
        for m in re.finditer(r" (==|!=|<|>|<=|>=|&&|\|\||\+|-) ", code):
            a = {"==": ["!="], "!=": ["=="], "<": ["<=", ">"], ">": [">=", "<"], "<=": ["<", ">"], ">=": [">", "<"], "&&": ["||"], "||": ["&&"], "+": ["-"], "-": ["+"]}[m.group(1)]
            for b in a:
                yield i, (start + m.start(1), start + m.end(1)), b, "operator"
        for m in re.finditer(r"\b(true|false)\b", code):
            yield i, (start + m.start(), start + m.end()), "false" if m.group(1) == "true" else "true", "boolean"
        for m in re.finditer(r"(?<![\w\.\"'])(\d+)(?![\w\"'])", code):
            if '"' in code[:m.start()] and code[:m.start()].count('"') % 2:
                continue
            v = int(m.group(1))
            for b in {v + 1, max(0, v - 1)} - {v}:
                yield i, (start + m.start(), start + m.end()), str(b), "integer"
        for m in re.finditer(r"b'(\\?.)'", code):
            for b in ("b'~'", "b'A'", "b'+'"):
                if b != m.group(0):
                    yield i, (start + m.start(), start + m.end()), b, "byte"
        for m in re.finditer(r'"([^"\\]+)"', code):
            v = m.group(1)
            yield i, (start + m.start(1), start + m.end(1)), v[:-1], "string"
            if "_" in v:
                yield i, (start + m.start(1), start + m.end(1)), v.replace("_", "-"), "string"
        for m in re.finditer(r"\bif (?!let)(.+?) \{", code):
            yield i, (start + m.start(1), start + m.end(1)), "!(%s)" % m.group(1), "negate"
            yield i, (start + m.start(1), start + m.end(1)), "true", "condition"
            yield i, (start + m.start(1), start + m.end(1)), "false", "condition"
        for m in re.finditer(r"\(([\w\.&]+), ([\w\.&]+)\)", code):
            if m.group(1) != m.group(2):
                yield i, (start + m.start(1), start + m.end(2)), "%s, %s" % (m.group(2), m.group(1)), "swap"
        for m in re.finditer(r"\bSome\((\w+)\)(?! =>| =)", code):
            yield i, (start + m.start(), start + m.end()), "None", "none"
        for m in re.finditer(r"\b(percent_encode|PercentEncode|DoublePercentEncode|encode)\((\w+)\)", code):
            yield i, (start + m.start(), start + m.end()), m.group(2), "no encoding"
        for a, b in (("client", "token"), ("identifier", "secret"), ("nonce", "timestamp"), ("callback", "verifier"), ("next", "data"), ("secret", "identifier"), ("token", "client"), ("min", "max"), ("Less", "Greater"), ("Left", "Right"), ("form", "query"), ("serialize_parameter", "serialize_parameter_encoded"), ("serialize_parameter_encoded", "serialize_parameter"), ("Ok", "Err"), ("is_some", "is_none"), ("is_none", "is_some"), ("and_then", "or_else"), ("GET", "POST"), ("POST", "PUT"), ("DELETE", "GET"), ("then", "then_with"), ("skip", "take"), ("first", "last"), ("all", "any"), ("any", "all"), ("value", "key"), ("key", "value")):
            for m in re.finditer(r"\b%s\b" % a, code):
                yield i, (start + m.start(), start + m.end()), b, "name"


def sh(*c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


all_ = []
for top in ("oauth1-request/src", "oauth-credentials/src", "oauth1-request-derive/src"):
    for d, _, fs in os.walk(os.path.join(R, top)):
        for f in sorted(fs):
            if f.endswith(".rs") and only in os.path.join(d, f):
                p = os.path.join(d, f)
                for s in sites(p):
                    all_.append((p,) + s)
rnd.shuffle(all_)
print(len(all_), "sites")
os.makedirs(out, exist_ok=True)
done = set()
logf = os.path.join(out, "log.jsonl")
if os.path.exists(logf):
    done = {tuple(json.loads(l)["id"]) for l in open(logf)}
stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
k = 0
for p, line, (a, b), new, kind in all_:
    ident = (os.path.relpath(p, R), line + 1, a, new, kind)
    if ident in done:
        continue
    if k >= n:
        break
    src = open(p).read()
    rec = dict(id=ident, old=src[a:b], line=src.split("\n")[line].strip())
    try:
        open(p, "w").write(src[:a] + new + src[b:])
        r = sh("cargo", "check", "--offline", "-p", "oauth1-request", "--all-features", cwd=R)
        if r.returncode:
            rec["result"] = "does not compile"
        else:
            sh("bash", "/opt/vp/build.sh", cwd=R)
            to = os.path.join(out, "t.json")
            if os.path.exists(to):
                os.remove(to)
            try:
                subprocess.run(["bash", "/opt/vp/test.sh", to], cwd=R, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
                passed = set(json.load(open(to))["passed"])
            except Exception:
                passed = set()
            bad = [t for t in stable if t not in passed]
            if bad:
                rec["result"] = "fails tests"
            else:
                k += 1
                try:
                    r = subprocess.run(["python3", "/verif/tools/allcheck.py"], cwd="/verif", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=800)
                    o = json.loads(r.stdout.strip().splitlines()[-1])
                    rec.update(o)
                    rec["result"] = "caught" if o["violations"] else "undecided" if o["undecided"] or o["broken"] else "survived"
                except Exception as e:
                    rec["result"] = "error %r" % e
    finally:
        open(p, "w").write(src)
    with open(logf, "a") as f:
        f.write(json.dumps(rec) + "\n")
print("end")
