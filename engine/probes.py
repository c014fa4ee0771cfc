"""The witness crate's probe functions."""
from models import *
from models import text, deref, deref_all, m, setbuf, eqs, cmp3


def nm(I, st, v):
    return lit_of(text(I, st, v)).decode()


W = "witness::p::"


@m(W + "sym_str", W + "sym_bytes")
def _(I, st, f, a):
    return SV(whole(nm(I, st, a[0])))


@m(W + "fresh_str")
def _(I, st, f, a):
    return SV(whole(st.fresh(nm(I, st, a[0]))))


@m(W + "sym_u64", W + "sym_usize")
def _(I, st, f, a):
    return sym("n:" + nm(I, st, a[0]))


@m(W + "sym_obj")
def _(I, st, f, a):
    return Op("obj", whole(nm(I, st, a[0])))


@m(W + "nd")
def _(I, st, f, a):
    r = st.facts.decide(("nd", st.nsym))
    st.nsym += 1
    return int(r)


def dies(I, st):
    raise Stop("assumption", quiet=True)


@m(W + "dead")
def _(I, st, f, a):
    dies(I, st)


def assume(I, st, c, val=True):
    f = st.facts.assume(c, val)
    if f is None:
        dies(I, st)
    st.facts = f
    return UNIT


@m(W + "assume_le")
def _(I, st, f, a):
    return assume(I, st, ("<=", text(I, st, a[0]), text(I, st, a[1])))


@m(W + "assume_lt")
def _(I, st, f, a):
    return assume(I, st, ("<", text(I, st, a[0]), text(I, st, a[1])))


@m(W + "assume_ne")
def _(I, st, f, a):
    return assume(I, st, ("==", text(I, st, a[0]), text(I, st, a[1])), False)


@m(W + "assume_pos")
def _(I, st, f, a):
    return assume(I, st, ("ge", lsub(a[0], 1)))


@m(W + "assume_no")
def _(I, st, f, a):
    mk = mask_of(lit_of(text(I, st, a[1])))
    for x in text(I, st, a[0]):
        if x[0] == "s" and x[4] is ID:
            assume(I, st, ("has", x[1], x[2], x[3], mk), False)
        elif x[0] == "l":
            if any(mk >> b & 1 for b in x[1]):
                dies(I, st)
        else:
            raise Stop("assume_no")
    return UNIT


@m(W + "assume_only")
def _(I, st, f, a):
    mk = FULL & ~mask_of(lit_of(text(I, st, a[1])))
    for x in text(I, st, a[0]):
        if x[0] == "s" and x[4] is ID:
            assume(I, st, ("has", x[1], x[2], x[3], mk), False)
        else:
            raise Stop("assume_only")
    return UNIT


@m(W + "sym_str_n")
def _(I, st, f, a):
    n = nm(I, st, a[0])
    assume(I, st, ("ge", lsub(slen(n), a[1])), True)
    return SV((("s", n, 0, a[1], ID),))


@m(W + "join")
def _(I, st, f, a):
    st.g["\0join"] = nm(I, st, a[0])
    return UNIT


@m(W + "enc")
def _(I, st, f, a):
    return SV(apply(ENC, text(I, st, a[0])))


@m(W + "enc2")
def _(I, st, f, a):
    return SV(apply(ENC, apply(ENC, text(I, st, a[0]))))


def texts(I, st, p):
    v = I.read(st, p.key, p.path)
    if type(v) is Agg:
        return [text(I, st, x) for x in v.fs[p.meta[1]:p.meta[2]]]
    raise Stop("list of strings")


@m(W + "cat")
def _(I, st, f, a):
    return SV(cat(*texts(I, st, a[0])))


@m(W + "dec")
def _(I, st, f, a):
    return SV(decimal(I, st, a[0]))


@m(W + "b64")
def _(I, st, f, a):
    return SV(whole(("b64", text(I, st, a[0]))))


@m(W + "term")
def _(I, st, f, a):
    return SV(whole((nm(I, st, a[0]),) + tuple(texts(I, st, a[1]))))


@m(W + "log_set")
def _(I, st, f, a):
    st.g["log:" + nm(I, st, a[0])] = text(I, st, a[1])
    return UNIT


@m(W + "log_add")
def _(I, st, f, a):
    k = "log:" + nm(I, st, a[0])
    st.g[k] = cat(st.g.get(k, ()), text(I, st, a[1]))
    return UNIT


@m(W + "log_get")
def _(I, st, f, a):
    return SV(st.g.get("log:" + nm(I, st, a[0]), ()))


def oblig(I, st, prop, what, r, detail):
    if r is True and any(x.startswith("no model for") for x in st.taint):
        r = None
    if r is True:
        status = "ok"
    elif r is False and not st.taint and not st.wide:
        status = "violation"
    else:
        status = "undecided"
    if r is not True and st.taint:
        detail += " [" + "; ".join(st.taint) + "]"
    I.results.append(dict(prop=prop, what=what, status=status, detail=detail, where=I.where(st), facts=st.facts if r is not True else None))


@m(W + "check_eq")
def _(I, st, f, a):
    got, want = text(I, st, a[1]), text(I, st, a[2])
    r = st.facts.same(got, want)
    oblig(I, st, nm(I, st, a[0]), nm(I, st, a[3]), r, "" if r is True else "got %s, want %s" % (show(got), show(want)))
    return UNIT


@m(W + "check")
def _(I, st, f, a):
    v = a[1]
    r = bool(v) if isinstance(v, int) else None
    if type(v) is Tab:
        r = I.concretise(st, v, [1]) == 1
    oblig(I, st, nm(I, st, a[0]), nm(I, st, a[2]), r, "" if r is True else "does not hold")
    return UNIT


def syms_in(s, out=None):
    """All symbol names in a sequence, nested ones included."""
    if out is None:
        out = set()
    for x in s:
        if x[0] == "s":
            n = x[1]
            out.add(n)
            names_in(n, out)
    return out


def names_in(n, out):
    if isinstance(n, str):
        out.add(n)
    elif isinstance(n, Lin):
        for q in lsyms(n):
            names_in(q, out)
    elif isinstance(n, tuple):
        if n and isinstance(n[0], tuple) and n[0] and n[0][0] in ("l", "s"):
            syms_in(n, out)
        else:
            for q in n:
                if not isinstance(q, (int, H, bytes)):
                    names_in(q, out)


def find_sub(st, out, want):
    """The parts of `out` outside the occurrences of `want`, with None for each occurrence."""
    out = list(out)
    rest = []
    n = len(want)
    if n == 0:
        return out
    if n == 1 and want[0][0] == "l":
        for x in out:
            if x[0] == "l":
                ps = x[1].split(want[0][1])
                for k, p in enumerate(ps):
                    if k:
                        rest.append(None)
                    if p:
                        rest.append(("l", p))
            else:
                rest.append(x)
        return rest
    i = 0
    while i < len(out):
        if i + n <= len(out):
            f, x = want[0], out[i]
            l, y = want[-1], out[i + n - 1]
            okf = x == f or f[0] == "l" and x[0] == "l" and x[1].endswith(f[1])
            okl = y == l or l[0] == "l" and y[0] == "l" and y[1].startswith(l[1])
            if okf and okl and tuple(out[i + 1:i + n - 1]) == tuple(want[1:n - 1]):
                if n == 1:
                    okf = x == f
                if n > 1 or okf:
                    if f[0] == "l" and x != f:
                        rest.append(("l", x[1][:len(x[1]) - len(f[1])]))
                    rest.append(None)
                    if n > 1 and l[0] == "l" and y != l:
                        # the rest of the literal may begin another occurrence
                        out[i + n - 1] = ("l", y[1][len(l[1]):])
                        i += n - 1
                    else:
                        i += n
                    continue
        rest.append(out[i])
        i += 1
    return rest


@m(W + "check_only")
def _(I, st, f, a):
    out, val, want = text(I, st, a[1]), text(I, st, a[2]), text(I, st, a[3])
    names = {n for n in syms_in(val) if isinstance(n, str)}
    r = True
    for x in find_sub(st, st_resolve(st, out), want):
        if x is not None and x[0] == "s":
            s = syms_in((x,))
            if s & names:
                r = False
            elif any(isinstance(n, str) and n[0] == "~" for n in s) or has_unk((x,)):
                r = None if r is True else r
    oblig(I, st, nm(I, st, a[0]), nm(I, st, a[4]), r, "" if r is True else "got %s, where %s may only be part of %s" % (show(out), show(val), show(want)))
    return UNIT


def st_resolve(st, s):
    return s


@m(W + "check_free")
def _(I, st, f, a):
    out, p = text(I, st, a[1]), nm(I, st, a[2])
    ns = [n for n in syms_in(out) if isinstance(n, str)]
    bad = [n for n in ns if n.startswith(p)]
    r = False if bad else None if any(n[0] == "~" for n in ns) or has_unk(out) else True
    oblig(I, st, nm(I, st, a[0]), nm(I, st, a[3]), r, "" if r is True else "%s depends on %s" % (show(out), ", ".join(bad) or "?"))
    return UNIT


@m(W + "check_charset")
def _(I, st, f, a):
    out, cs = text(I, st, a[1]), mask_of(lit_of(text(I, st, a[2])))
    r = True
    for x in out:
        if x[0] == "l":
            if any(not cs >> b & 1 for b in x[1]):
                r = False
        else:
            mk = st.facts.mask_range(x[1], x[2], x[3])
            for b in mask_bytes(mk):
                o = x[4].t[b]
                if o and any(not cs >> c & 1 for c in o):
                    r = (None if has_unk((x,)) or (isinstance(x[1], str) and x[1][0] == "~") else False) if r is True else r
                    break
    oblig(I, st, nm(I, st, a[0]), nm(I, st, a[3]), r, "" if r is True else "%s may contain other characters" % show(out))
    return UNIT


@m(W + "expect_panic")
def _(I, st, f, a):
    st.g["expect_panic"] = (nm(I, st, a[0]), nm(I, st, a[1]), nm(I, st, a[2]))
    return UNIT


@m(W + "panic_prop")
def _(I, st, f, a):
    st.g["panic_prop"] = (nm(I, st, a[0]),)
    return UNIT


@m(W + "may_panic")
def _(I, st, f, a):
    st.g["panic_prop"] = None
    return UNIT


@m(W + "effects")
def _(I, st, f, a):
    return st.g.get("fx:" + nm(I, st, a[0]), 0)


@m(W + "args_len")
def _(I, st, f, a):
    return len(fmtargs(I, st, a[0]).a[0])


@m(W + "args_lit")
def _(I, st, f, a):
    p = fmtargs(I, st, a[0]).a[0][a[1]]
    return some(SV(lit(p[1]))) if p[0] == "lit" else NONE


@m(W + "args_opts")
def _(I, st, f, a):
    v = fmtargs(I, st, a[0])
    p = v.a[0][a[1]]
    w, pr = p[3], p[4]
    if type(w) is Op:
        w = deref(I, st, w.a[0])
    if type(pr) is Op:
        pr = deref(I, st, pr.a[0])
    return Agg(0, (p[2], w, pr))


@m(W + "args_call")
def _(I, st, f, a):
    v = fmtargs(I, st, a[0])
    p = v.a[0][a[1]]
    arg = v.a[1][p[1]]
    if type(arg) is not Op or arg.a[2] is None:
        raise Stop("format argument")
    return Call(arg.a[2], [arg.a[0], a[2]])


def occurrences(st, out, want):
    rest = find_sub(st, out, want)
    return rest, sum(x is None for x in rest)


@m(W + "check_once")
def _(I, st, f, a):
    out, val, want = text(I, st, a[1]), text(I, st, a[2]), text(I, st, a[3])
    names = {n for n in syms_in(val) if isinstance(n, str) and not n.startswith("n:")}
    if not names:
        names = {n for n in syms_in(val) if isinstance(n, str)}
    rest, n = occurrences(st, out, want)
    r = True
    for x in rest:
        if x is not None and x[0] == "s":
            s = syms_in((x,))
            if s & names:
                r = False
            elif any(isinstance(q, str) and q[0] == "~" for q in s) or has_unk((x,)):
                r = None if r is True else r
    if r is True and n != 1:
        r = False
    oblig(I, st, nm(I, st, a[0]), nm(I, st, a[4]), r, "" if r is True else "got %s, where %s may only be part of one %s" % (show(out), show(val), show(want)))
    return UNIT


@m(W + "check_has")
def _(I, st, f, a):
    out, want = text(I, st, a[1]), text(I, st, a[2])
    rest, n = occurrences(st, out, want)
    r = True if n >= 1 else None if has_unk(out) or any(isinstance(q, str) and q[0] == "~" for q in syms_in(out)) else False
    oblig(I, st, nm(I, st, a[0]), nm(I, st, a[3]), r, "" if r is True else "got %s, which lacks %s" % (show(out), show(want)))
    return UNIT


@m(W + "check_count")
def _(I, st, f, a):
    out, w, n = text(I, st, a[1]), lit_of(text(I, st, a[2])), a[3]
    k = sum(x[1].count(w) for x in out if x[0] == "l")
    r = k == n if not has_unk(out) and not any(isinstance(q, str) and q[0] == "~" for q in syms_in(out)) else None
    oblig(I, st, nm(I, st, a[0]), nm(I, st, a[4]), r, "" if r is True else "%r occurs %d times instead of %d in %s" % (w.decode(), k, n, show(out)))
    return UNIT


@m(W + "after")
def _(I, st, f, a):
    s, w = text(I, st, a[0]), lit_of(text(I, st, a[1]))
    for i, x in enumerate(s):
        if x[0] == "l" and w in x[1]:
            return SV(cat(lit(x[1].split(w, 1)[1]), s[i + 1:]))
    return SV(())


@m(W + "check_nonce")
def _(I, st, f, a):
    s = text(I, st, a[1])
    r, why = True, ""
    bad = [x for x in s if x[0] == "s" and (name_unk(x[1]) or isinstance(x[1], str) and x[1][0] == "~")]
    # characters
    for x in s:
        if x[0] == "l":
            if any(b not in UNRESERVED for b in x[1]):
                r, why = False, "it has other characters than unreserved ones"
        else:
            mk = st.facts.mask_range(x[1], x[2], x[3])
            if any(c not in UNRESERVED for b in mask_bytes(mk) for c in (x[4].t[b] or b"")):
                r, why = False, "it has other characters than unreserved ones"
    # length
    if st.facts.ge0(lsub(12, length(s))) is not True:
        r, why = (False if st.facts.ge0(lsub(12, length(s))) is False else None if r else r), "it may be longer than 12 characters"
    # entropy
    n = 0
    for x in s:
        if x[0] == "s" and isinstance(x[1], tuple):
            inner = x[1][1] if x[1][0] in ("b64url", "b64", "hex") and isinstance(x[1][1], tuple) else (x,)
            for y in inner:
                if y[0] == "s" and isinstance(y[1], tuple) and y[1][0] == "rnd":
                    tot = y[1][2]
                    # bytes that are left out are known to be zero
                    def known(lo, hi):
                        return st.facts.eq0(lsub(hi, lo)) is True or len(mask_bytes(st.facts.mask_range(y[1], lo, hi))) <= 1
                    lo, hi = y[2], y[3]
                    if lo != 0:
                        lo = next((c for c in range(tot) if known(c, lo)), lo)
                    if hi != tot:
                        hi = next((c for c in range(tot, 0, -1) if known(hi, c)), hi)
                    d = lsub(hi, lo)
                    n += d if isinstance(d, int) else 0
                elif y[0] == "s" and isinstance(y[1], tuple) and y[1][0] == "num":
                    t = y[1][3].t
                    if len(t) == 1 and t[0][1] in (1, -1) and isinstance(t[0][0], str) and t[0][0].startswith("n:rnd:"):
                        lo, hi, tot = y[2], y[3], y[1][1]
                        if isinstance(lo, int) and isinstance(hi, int) and isinstance(tot, int):
                            zeros = [len(mask_bytes(st.facts.mask_range(y[1], c, c + 1))) <= 1 for c in range(tot)]
                            lo = 0 if all(zeros[:lo]) else lo
                            hi = tot if all(zeros[hi:]) else hi
                        d = lsub(hi, lo)
                        n += tot if not isinstance(d, int) else d
                    elif any(isinstance(q, str) and q.startswith("n:rnd:") or isinstance(q, tuple) for q, _ in t):
                        bad.append(y)
    weak = any(isinstance(q, tuple) and q and q[0] == "weak" for q in all_names(s))
    if r is True and n < 8:
        n += known_zero(st, s)
    if r is True and n < 8:
        if bad:
            r = None
        else:
            r, why = False, "it has %d random bytes%s" % (n, " and a generator that is not cryptographic" if weak else "")
    oblig(I, st, nm(I, st, a[0]), nm(I, st, a[2]), r, "" if r is True else "%s: %s" % (show(s), why))
    return UNIT


def draw(r):
    """Which random number or bytes a name stands for."""
    if isinstance(r, tuple) and len(r) > 1 and r[0] == "rnd" and isinstance(r[1], str):
        return int(r[1][1:] if r[1][0] == "r" else r[1].split(":")[-1])


def known_zero(st, s):
    """How many random bytes are left out of the nonce because they are zero."""
    zero = {}       # number of zero bytes, by draw
    for n, lo, hi, mk in st.facts.masks:
        if not isinstance(n, tuple) or n[0] not in ("num", "rnd"):
            continue
        size = n[1] if n[0] == "num" else n[2]
        if not isinstance(size, int):
            continue
        z = size if len(mask_bytes(st.facts.mask_range(n, 0, size))) == 1 else 0
        if not z and n[0] == "rnd" and size > 8 and any(len(mask_bytes(st.facts.mask_range(n, c, c + 8))) == 1 for c in range(size - 7)):
            z = 8
        if not z:
            continue
        for r in [n] if n[0] == "rnd" else all_names(whole(n)):
            if draw(r) is not None:
                zero[draw(r)] = z
    used = {draw(r) for r in all_names(s)} - {None}
    k, n = st.g.get("fx:rng", 0), 0
    while k in zero or k in used:
        if k not in used:
            n += zero[k]
        k -= 1
        if n >= 8:
            break
    return n


def all_names(s, out=None):
    if out is None:
        out = set()
    for x in s:
        if x[0] == "s":
            nn(x[1], out)
    return out


def nn(n, out):
    if isinstance(n, tuple):
        out.add(n)
        for q in n:
            if isinstance(q, tuple):
                nn(q, out)
            elif type(q) is Lin:
                for r, _ in q.t:
                    if isinstance(r, str) and r.startswith(("n:rnd:", "n:weak:")):
                        out.add((r[2:].split(":")[0], r))
                    nn(r, out)


@m(W + "check_apart")
def _(I, st, f, a):
    x = {q for q in all_names(text(I, st, a[1])) if q and q[0] in ("rnd", "weak")}
    y = {q for q in all_names(text(I, st, a[2])) if q and q[0] in ("rnd", "weak")}
    r = not (x & y)
    if r and not (x and y) and (has_unk(text(I, st, a[1])) or has_unk(text(I, st, a[2]))):
        r = None
    oblig(I, st, nm(I, st, a[0]), nm(I, st, a[3]), r, "" if r else "both depend on the same random bytes")
    return UNIT


@m(W + "clock_ok")
def _(I, st, f, a):
    return int(st.facts.decide(("nd", "clock%d" % a[0])))
