"""Abstract byte strings.

A sequence is a tuple of atoms describing *all* values a string may take:
  ('l', bytes)                    a literal
  ('s', name, lo, hi, H)          H applied to every byte of symbol `name` in [lo, hi)
`H` is a byte homomorphism (a table of 256 byte strings); `name` is a string for an arbitrary
input, or a tuple (op, args...) for an uninterpreted function of other sequences.
Positions are linear expressions (`Lin` or int).
"""


class Lin:
    __slots__ = ("c", "t", "s", "_h")

    def __init__(self, c, t):
        self.c = c
        self.t = t  # tuple of (sym, coef), sorted by repr of sym
        self.s = tuple([s for s, _ in t])
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self._h == o._h and self.c == o.c and self.t == o.t

    def __repr__(self):
        return "+".join(["%s%s" % ("" if k == 1 else str(k) + "*", s if isinstance(s, str) else repr(s)) for s, k in self.t] + ([str(self.c)] if self.c or not self.t else []))


def lin(c, d):
    t = tuple(sorted(((s, k) for s, k in d.items() if k), key=lambda x: repr(x[0])))
    return Lin(c, t) if t else c


def sym(s):
    return Lin(0, ((s, 1),))


def ladd(a, b, k=1):
    if isinstance(a, int) and isinstance(b, int):
        return a + k * b
    d = {}
    c = 0
    for x, m in ((a, 1), (b, k)):
        if isinstance(x, int):
            c += m * x
        else:
            c += m * x.c
            for s, q in x.t:
                d[s] = d.get(s, 0) + m * q
    return lin(c, d)


def lsub(a, b):
    return ladd(a, b, -1)


def lscale(a, k):
    if isinstance(a, int):
        return a * k
    return lin(a.c * k, {s: q * k for s, q in a.t})


def lsyms(a):
    return () if isinstance(a, int) else a.s


class H:
    """A byte homomorphism; interned, so identity is equality."""
    __slots__ = ("t", "name", "one", "_r")
    pool = {}

    def __repr__(self):
        return self.name or "H%x" % (id(self) & 0xFFFF)


def mkH(table, name=None):
    table = tuple(table)
    h = H.pool.get(table)
    if h is None:
        h = H()
        h.t = table
        h.name = name
        h.one = all(x is None or len(x) == 1 for x in table)
        h._r = {}
        H.pool[table] = h
    if name and not h.name:
        h.name = name
    return h


ID = mkH([bytes([i]) for i in range(256)], "id")
UNRESERVED = frozenset(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")
ENC = mkH([bytes([i]) if i in UNRESERVED else b"%%%02X" % i for i in range(256)], "enc")
FULL = (1 << 256) - 1


def mask_of(bs):
    m = 0
    for b in bs:
        m |= 1 << b
    return m


def mask_bytes(m):
    return [b for b in range(256) if m >> b & 1]


M_UNRES = mask_of(UNRESERVED)
M_DIGIT = mask_of(b"0123456789")
M_B64 = mask_of(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=")
M_B64URL = mask_of(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_")
OPMASK = {"dec": M_DIGIT, "b64": M_B64, "b64url": M_B64URL}
BASEMASK = {}  # by symbol name


def base_mask(name):
    if isinstance(name, tuple):
        return OPMASK.get(name[0], FULL)
    if name[:4] == "run:":  # a run of unreserved characters
        return M_UNRES
    return BASEMASK.get(name, FULL)


def hmap(h, bs):
    t = h.t
    return b"".join(t[b] or b"" for b in bs)


_comp = {}


def compose(g, f):
    """g after f"""
    if f is ID:
        return g
    if g is ID:
        return f
    r = _comp.get((g, f))
    if r is None:
        r = mkH([None if x is None else hmap(g, x) for x in f.t],
                "enc2" if g is ENC and f is ENC else "enc3" if g is ENC and f.name == "enc2" else None)
        _comp[(g, f)] = r
    return r


def restrict(h, m):
    """The canonical table which agrees with h on the bytes in m."""
    if m == FULL:
        return h
    r = h._r.get(m)
    if r is None:
        bs = mask_bytes(m)
        if all(h.t[b] == ID.t[b] for b in bs):
            r = ID
        else:
            # Known maps win over anonymous ones with the same restriction
            r = None
            for k in (ENC, _comp.get((ENC, ENC))):
                if k is not None and all(h.t[b] == k.t[b] for b in bs):
                    r = k
                    break
            if r is None:
                t = [None] * 256
                for b in bs:
                    t[b] = h.t[b]
                r = mkH(t)
        h._r[m] = r
    return r


def const_out(h, m):
    """The single output of h over mask m when it is constant, else None."""
    outs = {h.t[b] for b in mask_bytes(m)}
    return outs.pop() if len(outs) == 1 else None


compose(ENC, ENC)


def slen(name):
    if isinstance(name, tuple):
        n = OPLEN.get(name[0])
        if n is not None:
            return n(name) if callable(n) else n
    return sym(("len", name))


OPLEN = {}


def whole(name, h=ID):
    return norm([("s", name, 0, slen(name), h)])


def lit(b):
    if isinstance(b, str):
        b = b.encode()
    return (("l", b),) if b else ()


def norm(atoms):
    out = []
    for a in atoms:
        if a[0] == "l":
            if not a[1]:
                continue
            if out and out[-1][0] == "l":
                out[-1] = ("l", out[-1][1] + a[1])
            else:
                out.append(a)
        else:
            _, n, lo, hi, h = a
            if lo == hi:
                continue
            bm = base_mask(n)
            if bm != FULL:
                h = restrict(h, bm)
            if out and out[-1][0] == "s":
                p = out[-1]
                if p[1] == n and p[4] is h and p[3] == lo:
                    out[-1] = ("s", n, p[2], hi, h)
                    if p[2] == hi:
                        out.pop()
                    continue
            out.append(("s", n, lo, hi, h))
    return tuple(out)


def cat(*seqs):
    r = []
    for s in seqs:
        r.extend(s)
    return norm(r)


def apply(h, seq):
    return norm([("l", hmap(h, a[1])) if a[0] == "l" else ("s", a[1], a[2], a[3], compose(h, a[4])) for a in seq])


def alen(a):
    if a[0] == "l":
        return len(a[1])
    _, n, lo, hi, h = a
    if h.one:
        return lsub(hi, lo)
    ks = {len(x) for x in h.t if x is not None}
    if len(ks) == 1:
        return lscale(lsub(hi, lo), ks.pop())
    return sym(("alen", a))


def length(seq):
    r = 0
    for a in seq:
        r = ladd(r, alen(a))
    return r


def is_lit(seq):
    return len(seq) == 0 or (len(seq) == 1 and seq[0][0] == "l")


def lit_of(seq):
    if not seq:
        return b""
    if len(seq) == 1 and seq[0][0] == "l":
        return seq[0][1]
    return None


_hu = {}


def has_unk(seq):
    return any(a[0] == "s" and isinstance(a[1], tuple) and name_unk(a[1]) for a in seq)


def name_unk(n):
    """Whether an unknown value occurs anywhere within a name."""
    if not isinstance(n, tuple):
        return False
    r = _hu.get(n)
    if r is None:
        r = _hu[n] = bool(n) and (n[0] == "unk" or any(name_unk(x) for x in n if isinstance(x, tuple)))
    return r


def show_name(n):
    if isinstance(n, str):
        return n
    return "%s(%s)" % (n[0], ", ".join(show(x) if isinstance(x, tuple) and (not x or isinstance(x[0], tuple)) else str(x) for x in n[1:]))


def show(seq):
    o = []
    for a in seq:
        if a[0] == "l":
            o.append(repr(a[1].decode("utf-8", "replace")))
        else:
            _, n, lo, hi, h = a
            s = show_name(n)
            if not (lo == 0 and hi == slen(n)):
                s += "[%r..%r]" % (lo, hi)
            if h is not ID:
                s = "%r(%s)" % (h, s)
            o.append(s)
    return " ++ ".join(o) or "''"
