"""Obligations at the unsafe operations of the repository: the contract of each unsafe function it calls
and of each pointer cast it performs (property C37)."""
from seq import *
from interp import Ptr, SV, Buf, Agg, Stop, Unk
from models import text

PROP = "C37"


def report(I, st, what, r, detail):
    if r is True:
        status = "ok"
    elif r is False and not (st.taint or st.wide):
        status = "violation"
    else:
        status = "undecided"
    I.results.append(dict(prop=PROP, what=what, status=status, detail=detail, where=I.where(st)))


def ascii_mask(m):
    return m >> 128 == 0


def utf8(st, s):
    """Is every value of this sequence valid UTF-8?  True, False (some value is not) or None."""
    res = True
    if all(a[0] == "l" for a in s):
        try:
            b"".join(a[1] for a in s).decode()
            return True, ""
        except UnicodeDecodeError:
            return False, "the literal %r" % (b"".join(a[1] for a in s)[:40],)
    why = ""
    f = st.facts
    for a in s:
        if a[0] == "l":
            try:
                a[1].decode()
            except UnicodeDecodeError:
                return None, "a literal cut within a character"
            continue
        _, n, lo, hi, h = a
        m = f.mask_range(n, lo, hi)
        bs = mask_bytes(m)
        if all(h.t[b] is not None and all(x < 128 for x in h.t[b]) for b in bs):
            continue
        if h is not ID and any(h.t[b] != bytes([b]) for b in bs):
            res, why = None, "the image of a symbol"
            continue
        if not isinstance(n, str):
            res, why = None, "a computed sequence"
            continue
        if n.startswith("raw:"):
            return (False if res else None), "arbitrary bytes (%d of 256 values possible)" % len(bs)
        for p in (lo, hi):
            if f.eq0(p) is True or f.eq0(lsub(p, slen(n))) is True:
                continue
            if ascii_mask(f.mask_range(n, lsub(p, 1), p)) or ascii_mask(f.mask_range(n, p, ladd(p, 1))):
                continue
            if res is not None:
                res, why = False, "a part of the text %s that can be cut within a character" % n
    return res, why


def unsafe_call(I, st, f, a):
    d = f["def"]
    if d.endswith(("from_utf8_unchecked", "from_utf8_unchecked_mut")):
        try:
            s = text(I, st, a[0])
            r, why = utf8(st, st.facts.resolve(s) if hasattr(st.facts, "resolve") else s)
        except Stop as e:
            r, why = None, e.why
        report(I, st, "bytes given to the unchecked UTF-8 conversion are valid UTF-8", r, why)
    elif d.endswith(("get_unchecked", "get_unchecked_mut")) and ("slice" in d or "str" in d):
        bounds(I, st, a)
    elif d.endswith("unreachable_unchecked"):
        report(I, st, "unreachable code is not reached", False, "this path reaches it")
    else:
        report(I, st, "contract of " + d, None, "no rule")


def bounds(I, st, a):
    what = "the index given to an unchecked access is in bounds"
    from models import deref_all
    try:
        p = a[0]
        if type(p) is Ptr and p.meta and p.meta[0] == "sl":
            n = lsub(p.meta[2], p.meta[1])
        elif type(p) is SV:
            n = length(p.s)
        else:
            v = deref_all(I, st, p)
            n = length(v.s) if type(v) is Buf else len(v.fs) if type(v) is Agg else None
        i = a[1]
        if n is None:
            return report(I, st, what, None, "length unknown")
        f = st.facts
        if type(i) in (int, Lin):
            r = f.leq(ladd(i, 1), n)
        elif type(i) is Agg and all(type(x) in (int, Lin) for x in i.fs):
            # Range, RangeTo or RangeFrom by the number of fields; the names decide in the driver's types
            xs = list(i.fs)
            if len(xs) == 2:
                r1, r2 = f.leq(xs[0], xs[1]), f.leq(xs[1], n)
                r = True if r1 is True and r2 is True else False if r1 is False or r2 is False else None
            elif len(xs) == 1:
                r = f.leq(xs[0], n)
            else:
                r = True
        else:
            r = None
        report(I, st, what, r, "index %r, length %r" % (i, n))
    except Stop as e:
        report(I, st, what, None, e.why)


def pointee(I, ty):
    t = I.p.types[ty] if ty is not None else None
    return I.p.types[t["to"]] if t and t["k"] in ("ptr", "ref") else None


def cast(I, st, frm, to):
    """A pointer cast to a type of the repository must keep the layout: through repr(transparent) only."""
    a, b = pointee(I, frm), pointee(I, to)
    if a is None or b is None or a is b:
        return
    if not (mine(b) or mine(a)) or a.get("size") == b.get("size") == 0:
        return
    if b["k"] in ("uint", "int", "tuple") or a["k"] == "tuple" and not a["elems"]:
        return
    if a["k"] in ("array", "slice") and I.p.types[a["elem"]] is b or b["k"] in ("array", "slice") and I.p.types[b["elem"]] is a:
        return
    x = unwrap(I, a)
    y = unwrap(I, b)
    what = "a reference cast is between types of guaranteed identical layout"
    if x & y:
        report(I, st, what, True, "%s as %s" % (a["name"], b["name"]))
    elif a["k"] == b["k"] == "adt" or a.get("size") != b.get("size"):
        report(I, st, what, False, "%s as %s, neither is a repr(transparent) wrapper of the other" % (a["name"], b["name"]))
    else:
        report(I, st, what, None, "%s as %s" % (a["name"], b["name"]))


def mine(t):
    return t["k"] == "adt" and t["def"].startswith(("oauth", "oauth1_request"))


def unwrap(I, t):
    """The type and those it is a transparent wrapper of."""
    out = set()
    while True:
        out.add(t["name"])
        if t["k"] != "adt" or not t.get("transparent"):
            return out
        fs = [I.p.types[f[1]] for f in t["variants"][0]["fields"] if I.p.types[f[1]].get("size")]
        if len(fs) != 1:
            return out
        t = fs[0]
