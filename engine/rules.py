"""Rules over the sources and over what the witnesses covered."""
import os, re


def tokens(src):
    """The source with comments, strings and character literals blanked out, keeping the lines."""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if src.startswith("//", i):
            j = src.find("\n", i)
            j = n if j < 0 else j
        elif src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d += 1
                    j += 2
                elif src.startswith("*/", j):
                    d -= 1
                    j += 2
                else:
                    j += 1
        elif re.match(r'b?r#*"', src[i:]) and (i == 0 or not (src[i - 1].isalnum() or src[i - 1] == "_")):
            m = re.match(r'b?r(#*)"', src[i:])
            j = src.find('"' + m.group(1), i + m.end())
            j = n if j < 0 else j + 1 + len(m.group(1))
        elif c == '"':
            j = i + 1
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
        elif c == "'" and re.match(r"'(\\.[^']*|[^\\'])'", src[i:]):
            j = i + re.match(r"'(\\.[^']*|[^\\'])'", src[i:]).end()
        else:
            out.append(c)
            i += 1
            continue
        out.append("".join(x if x == "\n" else " " for x in src[i:j]))
        i = j
    return "".join(out)


def sources():
    for top in ("/repo/oauth1-request/src", "/repo/oauth-credentials/src", "/repo/oauth1-request-derive/src"):
        for d, _, fs in os.walk(top):
            for f in sorted(fs):
                if f.endswith(".rs"):
                    yield os.path.join(d, f)


def unsafe_sites(check):
    """Every use of `unsafe` in the sources must have been met by the analysis."""
    sites, missed, und = [], [], []
    seen = []
    for r in check.RESULTS:
        for w in r["where"][:2]:
            m = re.search(r"\((\S+):(\d+)\)$", w)
            if m:
                seen.append((m.group(1), int(m.group(2))))
    for f in sources():
        src = tokens(open(f).read())
        lines = src.split("\n")
        for i, l in enumerate(lines, 1):
            if re.search(r"\bunsafe\b", l):
                sites.append("%s:%d" % (f, i))
                if re.search(r"\bunsafe\s+(impl|fn|trait)\b", l) or not any(g.endswith(f) and i <= k <= i + 12 for g, k in seen):
                    und.append("%s:%d: an unsafe block, function or implementation without a rule or a witness that reaches it" % (f, i))
    return dict(unsafe_sites=sites), [], und


# -- programs that must, or must not, type-check --------------------------------------------------

MANIFEST = """[package]
name = "%s"
version = "0.0.0"
edition = "%s"
publish = false

[lib]
path = "src/lib.rs"

[dependencies]
%s
"""
PATCH = """
[workspace]
members = [%s]
resolver = "2"

[patch.crates-io]
oauth-credentials = { path = "/repo/oauth-credentials" }
oauth1-request = { path = "/repo/oauth1-request" }
oauth1-request-derive = { path = "/repo/oauth1-request-derive" }
"""
DEP = '%s = { package = "oauth1-request", path = "/repo/oauth1-request", default-features = false, features = ["derive"] }'


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as f:
            f.write(text)


def module_crate(cases, head=""):
    """One module per case; returns the source and the lines each case spans."""
    src, spans, n = head, [], head.count("\n") + 1
    for name, s in cases:
        t = "pub mod %s {\n%s\n}\n" % (name, s)
        k = t.count("\n")
        spans.append((n, n + k - 1, name))
        src += t
        n += k
    return src, spans


def cargo_check(ws, target, package=None, more=()):
    import subprocess, json
    cmd = ["cargo", "check", "--offline", "--keep-going", "--message-format=json"] + (["-p", package] if package else ["--workspace"]) + list(more)
    env = dict(os.environ, CARGO_TARGET_DIR=target)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    r = subprocess.run(cmd, cwd=ws, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    msgs, done = [], set()
    for l in r.stdout.splitlines():
        try:
            m = json.loads(l)
        except ValueError:
            continue
        if m.get("reason") == "compiler-message":
            msgs.append((m["target"]["name"], m["message"]))
        elif m.get("reason") == "compiler-artifact":
            done.add(m["target"]["name"])
    return r.returncode, msgs, done, r.stderr


def spans_of(sp):
    """The span and those of the macro calls it comes from."""
    while sp:
        yield sp
        sp = (sp.get("expansion") or {}).get("span")


def by_case(msgs, crate, spans, file="src/lib.rs"):
    """The errors of each case, and the errors that belong to none."""
    errs, rest = {}, []
    for t, m in msgs:
        if t != crate or m["level"] not in ("error", "error: internal compiler error"):
            continue
        hit = None
        for sp in m["spans"]:
            if sp["is_primary"]:
                for s in spans_of(sp):
                    if s["file_name"].endswith(file):
                        for a, b, name in spans:
                            if a <= s["line_start"] <= b:
                                hit = name
                                break
                if hit:
                    break
        if hit:
            errs.setdefault(hit, []).append(m["message"])
        elif m["spans"]:
            rest.append(m["message"])
    return errs, rest


def derive_accepts(check):
    """Every program of the family type-checks."""
    import derive_cases
    base = os.path.join(check.B, "derive-accept")
    cases = derive_cases.accept()
    crates = {}

    def crate(name, edition, dep, cases, head=""):
        src, spans = module_crate(cases, head)
        write(os.path.join(base, name, "Cargo.toml"), MANIFEST % (name, edition, dep))
        write(os.path.join(base, name, "src/lib.rs"), src)
        crates[name.replace("-", "_")] = (spans, dict(cases))

    allow = "#![allow(warnings)]\n"
    # The names that a lint is forbidden to be silenced for must not be silenced from outside.
    quiet = [(n, s) for n, s in cases if not n.startswith("m_no_warnings") and n != "m_shouting"]
    loud = [(n, s) for n, s in cases if n.startswith("m_no_warnings") or n == "m_shouting"]
    crate("accept-2021", "2021", DEP % "oauth", quiet, allow)
    crate("accept-loud", "2021", DEP % "oauth", loud, "#![deny(future_incompatible)]\n//! .\n")
    crate("accept-2024", "2024", DEP % "oauth", quiet, allow)
    crate("accept-2018", "2018", DEP % "oauth", quiet, allow)
    plain = [("m_plain", derive_cases.FN.replace("core::", "::std::") + "#[derive(Request)] pub struct R<'a, T> { #[oauth1(fmt = fm, skip_if = sk)] pub a: &'a str, pub t: T, pub o: Option<u8>, #[oauth1(option = true)] pub p: ::std::option::Option<u8> }")]
    crate("accept-2015", "2015", DEP % "oauth1-request", [(n, "use oauth1_request::Request;\n" + s) for n, s in plain], allow + "extern crate core;\nextern crate oauth1_request;\n")
    crate("accept-renamed", "2021", DEP % "my-renamed_crate", [("m_renamed", derive_cases.FN + "#[derive(my_renamed_crate::Request)] pub struct R<'a> { #[oauth1(fmt = fm, skip_if = sk)] pub a: &'a str, pub o: Option<u8> }")], allow)
    crate("accept-unrenamed", "2021", (DEP % "x").replace('x = { package = "oauth1-request", ', "oauth1-request = { "), [("m_unrenamed", derive_cases.FN + "#[derive(oauth1_request::Request)] pub struct R<'a> { #[oauth1(fmt = fm, skip_if = sk)] pub a: &'a str, pub o: Option<u8> }")], allow)
    crate("accept-target", "2021", "[target.'cfg(unix)'.dependencies]\n" + DEP % "oauth", [("m_target", "#[derive(oauth::Request)] pub struct R { pub a: u8 }")], allow)
    crate("facade", "2021", DEP % "inner_oauth", [("m_facade", "pub use inner_oauth as oauth;")], allow)
    crate("accept-facade", "2021", 'facade = { path = "../facade" }', [("m_via_facade", derive_cases.FN + "#[derive(facade::m_facade::oauth::Request)] #[oauth1(crate = facade::m_facade::oauth)] pub struct R { #[oauth1(fmt = fm, skip_if = sk)] pub a: u8, pub o: Option<u8> }")], allow)
    noprelude = [("m_no_prelude", "fn fm(_: &u8, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::result::Result::Ok(()) }\nfn sk(_: &u8) -> bool { true }\n#[::core::prelude::v1::derive(::oauth::Request)] pub struct R<'a, T> { #[oauth1(fmt = fm, skip_if = sk)] pub a: u8, pub t: &'a T, #[oauth1(option = true, fmt = fm, skip_if = sk)] pub o: ::core::option::Option<u8> }")]
    crate("accept-noprelude", "2021", DEP % "oauth", noprelude, "#![allow(warnings)]\n#![no_implicit_prelude]\n")
    nostd = [("m_no_std", derive_cases.FN + "#[derive(oauth::Request)] pub struct R<'a, T> { #[oauth1(fmt = fm, skip_if = sk)] pub a: &'a str, pub t: T, pub o: Option<u8>, #[oauth1(option = true)] pub p: core::option::Option<u8>, #[oauth1(encoded, fmt = core::fmt::Debug::fmt)] pub q: Option<T> }".replace("'a, T>", "'a, T: core::fmt::Debug>"))]
    crate("accept-nostd", "2021", DEP % "oauth", nostd, "#![allow(warnings)]\n#![no_std]\n")
    # Nothing may be reachable under the name of the standard library.
    crate("accept-nocore", "2021", DEP % "oauth", [("m_own_std", "#[derive(crate::Oauth)] pub struct R { #[oauth1(fmt = crate::fm, skip_if = crate::sk)] pub a: u8, pub o: Option<u8> }")],
          "#![allow(warnings)]\npub use oauth::Request as Oauth;\n#[macro_use] extern crate std as renamed_std;\npub mod std {}\npub mod alloc {}\npub mod oauth1_request {}\n" + derive_cases.FN)
    write(os.path.join(base, "Cargo.toml"), PATCH % ", ".join('"%s"' % c.replace("_", "-") for c in sorted(crates)))
    lock = os.path.join(base, "Cargo.lock")
    target = os.path.join(check.B, "derive-target")
    rc, msgs, done, err = cargo_check(base, target)
    viol, und, ok, n = [], [], 0, 0
    dep_broken = [t for t, m in msgs if m["level"] == "error" and t not in crates]
    if dep_broken or (rc and not msgs):
        return dict(obligations=0, discharged=0), [], ["the library does not type-check: %s" % (dep_broken[:3] or err[-600:])]
    for c, (spans, src) in sorted(crates.items()):
        errs, rest = by_case(msgs, c, spans)
        n += len(spans)
        for name in errs:
            viol.append(("derive-accepts:%s:%s" % (c, name), "a valid derive does not compile (crate %s, case %s): %s\n%s\nat the expansion of #[derive(Request)] (oauth1-request-derive/src/lib.rs, expand_derive_oauth1_authorize)" % (c, name, "; ".join(errs[name][:3]), src[name][:700])))
        for m in rest:
            viol.append(("derive-accepts:%s" % c, "a valid derive does not compile (crate %s): %s" % (c, m)))
        if c in done or errs:
            # An error may hide others: the rest counts only if the crate compiles.
            ok += len(spans) if c in done else 0
        elif not rest:
            und.append("crate %s gave neither a result nor an error: %s" % (c, err[-300:]))
    return dict(obligations=n, discharged=ok, compile_pass_programs={c: len(s) for c, (s, _) in sorted(crates.items())}), viol, und


def derive_rejects(check):
    """Every program of the family is an error of its own."""
    import derive_cases
    base = os.path.join(check.B, "derive-reject")
    cases = derive_cases.reject()
    src, spans = module_crate(cases, "#![allow(warnings)]\n")
    good = [(n, s) for n, s in derive_cases.accept() if n in ("m_many", "m_generic_all", "m_all_attributes", "m_rename_unreserved")]
    gsrc, gspans = module_crate(good, "#![allow(warnings)]\n")
    write(os.path.join(base, "reject/Cargo.toml"), MANIFEST % ("reject", "2021", DEP % "oauth"))
    write(os.path.join(base, "reject/src/lib.rs"), src)
    write(os.path.join(base, "control/Cargo.toml"), MANIFEST % ("control", "2021", DEP % "oauth"))
    write(os.path.join(base, "control/src/lib.rs"), gsrc)
    write(os.path.join(base, "Cargo.toml"), PATCH % '"reject", "control"')
    rc, msgs, done, err = cargo_check(base, os.path.join(check.B, "derive-target"))
    if "control" not in done:
        return dict(obligations=0, discharged=0), [], ["the control program does not type-check: %s" % (err[-600:])]
    errs, rest = by_case(msgs, "reject", spans)
    viol, und, table = [], [], dict(cases)
    kinds = {}
    if "reject" in done or errs:
        for a, b, name in spans:
            k = name.split("_")[1]
            kinds[k] = kinds.get(k, 0) + 1
            if name not in errs:
                viol.append(("derive-rejects:%s" % name, "an invalid derive is accepted (case %s):\n%s\nby #[derive(Request)] (oauth1-request-derive/src/lib.rs, expand_derive_oauth1_authorize)" % (name, table[name][:700])))
    else:
        und.append("the rejected programs gave no error: %s %s" % (rest[:3], err[-300:]))
    return dict(obligations=len(spans), discharged=len(errs), compile_fail_programs=kinds, compile_pass_controls=len(good)), viol, und


def type_level(check):
    """Every program about the types of the library type-checks."""
    import type_cases
    base = os.path.join(check.B, "types")
    feats = '["alloc", "std", "derive", "either", "hmac-sha1", "rsa-sha1-06", "rsa-sha1-09", "serde", "test"]'
    deps = 'oauth = { package = "oauth1-request", path = "/repo/oauth1-request", default-features = false, features = %s }\neither = "1"\n' % feats
    viol, und, ok, n = [], [], 0, 0
    src, spans = module_crate(type_cases.FULL, "#![allow(warnings)]\n" + type_cases.AUTO)
    write(os.path.join(base, "types/Cargo.toml"), MANIFEST % ("types", "2021", deps))
    write(os.path.join(base, "types/src/lib.rs"), src)
    write(os.path.join(base, "Cargo.toml"), PATCH % '"types"')
    rc, msgs, done, err = cargo_check(base, os.path.join(check.B, "derive-target"))
    if any(t != "types" and m["level"] == "error" for t, m in msgs) or (rc and not msgs):
        return dict(obligations=0, discharged=0), [], ["the library does not type-check: %s" % err[-600:]]
    cases = dict(type_cases.FULL)
    errs, rest = by_case(msgs, "types", spans)
    for name in errs:
        viol.append(("types:%s" % name, "a program the types of the library allow for does not compile (case %s): %s\n%s\nat the declarations of the types it names" % (name, "; ".join(errs[name][:3]), cases[name][:900])))
    for m in rest:
        viol.append(("types:other", "a program the types of the library allow for does not compile: %s" % m))
    n = len(spans)
    # An error may hide others.
    ok = n if "types" in done else 0
    return dict(obligations=n, discharged=ok, compile_pass_programs=sorted(cases)), viol, und


def feature_matrix(check):
    """Every combination of features type-checks, with the API that belongs to it."""
    import type_cases
    from concurrent.futures import ThreadPoolExecutor
    base = os.path.join(check.B, "features")
    feats = type_cases.FEATURES
    deps = 'oauth = { package = "oauth1-request", path = "/repo/oauth1-request", default-features = false }\neither = { version = "1", default-features = false }\nserde = { version = "1", default-features = false }\n'
    deps += "\n[features]\n" + "".join('"%s" = ["oauth/%s"]\n' % (f, f) for f in feats)
    src, spans = module_crate([(n, s) for n, f, s in type_cases.API], "#![no_std]\n#![allow(warnings)]\n")
    for n, f, _ in type_cases.API:
        if f:
            src = src.replace("pub mod %s {" % n, '#[cfg(feature = "%s")] pub mod %s {' % (f, n))
    combos = type_cases.combos(getattr(check, "TIER", "quick"))

    W = 8

    def some(i):
        out = []
        d = os.path.join(base, "w%d" % i)
        write(os.path.join(d, "features/Cargo.toml"), MANIFEST % ("features", "2021", deps))
        write(os.path.join(d, "features/src/lib.rs"), src)
        write(os.path.join(d, "Cargo.toml"), PATCH % '"features"')
        for c in combos[i::W]:
            out.append((c,) + cargo_check(os.path.join(d, "features"), os.path.join(d, "target"), "features", ["--no-default-features", "--features", ",".join(c)]))
        return out

    viol, und, ok = [], [], 0
    with ThreadPoolExecutor(W) as ex:
        res = [r for rs in ex.map(some, range(W)) for r in rs]
    for c, rc, msgs, done, err in sorted(res, key=lambda r: (len(r[0]), r[0])):
        if "features" in done and not rc:
            ok += 1
            continue
        text = ", ".join(c) or "no feature"
        own = [(t, m) for t, m in msgs if m["level"] == "error" and t in ("oauth1_request", "oauth_credentials", "oauth1_request_derive", "features") and m["spans"]]
        if not own:
            und.append("features (%s): no result: %s" % (text, err[-300:]))
            continue
        if sum(1 for v in viol) < 12:
            t, m = own[0]
            sp = next((s for s in m["spans"] if s["is_primary"]), m["spans"][0])
            viol.append(("features:%s" % "+".join(c), "the library, or the API that belongs to these features, does not type-check with the features: %s\n%s\nat %s:%d (crate %s)" % (text, m["message"], sp["file_name"], sp["line_start"], t)))
    return dict(obligations=len(combos), discharged=ok, feature_combinations=len(combos)), viol, und


# -- what the code reaches outside of itself ------------------------------------------------------

OUTSIDE = re.compile(r"(<.* as )?(std::(env|fs|net|process|os|io::(_print|_eprint|stdio|[Ss]td(in|out|err))|thread::(spawn|scope|sleep|park|Builder|current|yield_now|available_parallelism))|libc)\b")
# what a panic prints belongs to the panic; the generator may read the system's; the witnesses play the caller
APART = re.compile(r"(<.* as )?(&?(mut )?)?(core::panicking|std::panicking|std::rt::|std::thread::local|rand::|rand_core::|rand_chacha::|getrandom::|witness)")


def effects(check):
    """Every call path from a function of the repository stays clear of the process's surroundings."""
    from interp import Program
    viol, und = [], []
    fns_n, calls, leaves, obl, ok = set(), 0, set(), 0, 0
    for cfg in ("full", "fast") + (("nostd",) if getattr(check, "TIER", "quick") == "thorough" else ()):
        if cfg not in check.PROG:
            check.PROG[cfg] = Program(check.dump(cfg))
        p = check.PROG[cfg]

        def file(f):
            b = p.fns[f].get("body")
            return p.files[b["span"][0]] if b and "span" in b else ""
        repo = [f for f in range(len(p.fns)) if file(f).startswith("/repo/")]
        good = {}       # functions that reach nothing outside

        def callees(f):
            b = p.fns[f].get("body")
            for blk in b["blocks"] if b else ():
                t = blk[1]
                if t[0] == "call" and isinstance(t[1], int):
                    yield t[1], t[6] if len(t) > 6 else None
        for f in repo:
            obl += 1
            fns_n.add(p.fns[f]["def"])
            seen, st, bad = {f: None}, [f], None
            while st and bad is None:
                i = st.pop()
                for j, sp in callees(i):
                    calls += 1
                    if j in seen or j in good:
                        continue
                    d = p.fns[j]["def"]
                    if OUTSIDE.match(d):
                        seen[j] = (i, sp)
                        bad = j
                        break
                    if APART.match(d):
                        continue
                    seen[j] = (i, sp)
                    if p.fns[j].get("body"):
                        st.append(j)
                    else:
                        leaves.add(d)
            if bad is None:
                ok += 1
                good.update(seen)
                continue
            path, i = [], bad
            while i is not None:
                e = seen[i]
                path.append(p.fns[i]["name"] + (" (called at %s:%d)" % (p.files[e[1][0]], e[1][1]) if e and e[1] else ""))
                i = e[0] if e else None
            viol.append(("effects:%s:%s" % (p.fns[f]["def"], p.fns[bad]["def"]), "%s reaches %s\n   %s" % (p.fns[f]["def"], p.fns[bad]["def"], "\n   ".join(path))))
    viol.sort(key=lambda v: (v[1].count("\n"), v[0]))
    return dict(obligations=obl, discharged=ok, repo_functions_scanned=sorted(fns_n), calls_followed=calls, leaves=sorted(leaves)), viol[:20], und
