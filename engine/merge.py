"""Joining states at loop heads and join points.

A state is split into a skeleton (control stack, enum variants, integers, pointers, in a canonical
naming) and holes (byte strings and symbolic numbers). States with the same skeleton at the same
point are joined: where their holes differ, a new symbol stands for both, the same symbol wherever
the same pair of values meets, so equalities between values survive the join."""
from interp import *
from seq import *

HOLE = "\0hole"
NHOLE = "\0num"


class Canon:
    def __init__(self, I, st):
        self.I, self.st = I, st
        self.names = {}
        self.order = []
        self.holes = []   # ('s', seq) or ('n', Lin)

    def key(self, k):
        if k[0] == "c" or k[0] == "s":
            return k
        n = self.names.get(k)
        if n is None:
            d = self.fids.get(k[0])
            if d is not None:
                n = ("L", d, k[1])
            else:
                n = ("k", len(self.order))
                self.order.append(k)
            self.names[k] = n
        return n

    def num(self, x):
        if isinstance(x, (int, Lin)):
            self.holes.append(("n", x))
            return NHOLE
        return self.val(x)

    def val(self, v):
        t = type(v)
        if t is int:
            self.holes.append(("n", v))
            return NHOLE
        if t is Agg:
            return ("A", v.v, tuple([self.val(x) for x in v.fs]))
        if t is SV:
            self.holes.append(("s", v.s))
            return ("S", HOLE)
        if t is Buf:
            self.holes.append(("s", v.s))
            return ("B", HOLE)
        if t is Ptr:
            me = v.meta
            if me and me[0] == "sl":
                me = ("sl", self.num(me[1]), self.num(me[2]))
            return ("P", self.key(v.key), tuple([self.num(i) for i in v.path]), me)
        if t is Lin:
            self.holes.append(("n", v))
            return NHOLE
        if t is Op:
            return ("O", v.k, tuple([self.opval(x) for x in v.a]))
        if t is Tab:
            self.holes.append(("n", v.i))
            return ("T", v.name, NHOLE, v.t)
        if t is Unk:
            return ("U",)
        return v

    def opval(self, x):
        if isinstance(x, V):
            return self.val(x)
        if isinstance(x, (int, Lin)):
            return self.num(x)
        if isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and x[0][0] in ("l", "s"):
            self.holes.append(("s", x))
            return HOLE
        if isinstance(x, tuple):
            return tuple([self.opval(y) for y in x])
        return x

    def run(self):
        st = self.st
        sk = []
        for d, fr in enumerate(st.frames):
            self.names[("frame", fr.fid)] = ("f", d)
        fids = self.fids = {fr.fid: d for d, fr in enumerate(st.frames)}
        statics = sorted(k for k in st.mem if k[0] == "s")
        for k in statics:
            self.names[k] = k
        locs = [[] for _ in st.frames]
        for k in st.mem:
            d = fids.get(k[0])
            if d is not None:
                locs[d].append(k)
        for d, fr in enumerate(st.frames):
            live = self.I.live_locals(fr.fn, fr.bb, d == len(st.frames) - 1)
            for k in sorted(locs[d], key=lambda q: q[1]):
                n = ("L", d, k[1])
                self.names[k] = n
        out = []
        for d, fr in enumerate(st.frames):
            live = self.I.live_locals(fr.fn, fr.bb, d == len(st.frames) - 1)
            row = []
            for k in sorted(locs[d], key=lambda q: q[1]):
                if live is not None and k[1] not in live:
                    continue
                row.append((k[1], self.val(st.mem[k])))
            dest = fr.dest
            if dest is not None and dest[0] == "loc":
                dest = (self.key(dest[1]), dest[2], dest[3])
            out.append((fr.fn, fr.bb, fr.tgt, dest, tuple(row)))
        gs = tuple((k, self.opval(st.g[k])) for k in sorted(st.g))
        gs += tuple((k, self.val(st.mem[k])) for k in statics)
        # everything reachable
        i = 0
        heap = []
        while i < len(self.order):
            k = self.order[i]
            i += 1
            v = st.mem.get(k)
            heap.append((self.names[k], self.val(v) if v is not None else None))
        self.base = (tuple(out), gs, tuple(heap), st.taint)
        return self

    def key_for(self, wid):
        """The part of the state that joined states must agree on."""
        return tuple([None if i in wid or isinstance(h[1], Lin) else h[1] for i, h in enumerate(self.holes) if h[0] == "n"])

    def fixed(self, wid):
        return tuple([h[1] for i, h in enumerate(self.holes) if h[0] == "n" and i not in wid])


class Rebuild:
    """Rebuilds the values of a state, with its holes replaced by new contents in order."""

    def __init__(self, holes):
        self.h = holes
        self.i = 0

    def nxt(self):
        self.i += 1
        return self.h[self.i - 1][1]

    def num(self, x):
        return self.nxt() if isinstance(x, (int, Lin)) else self.val(x)

    def val(self, v):
        t = type(v)
        if t is int:
            return self.nxt()
        if t is Agg:
            return Agg(v.v, tuple([self.val(x) for x in v.fs]))
        if t is SV:
            return SV(self.nxt())
        if t is Buf:
            return Buf(self.nxt())
        if t is Ptr:
            me = v.meta
            if me and me[0] == "sl":
                a = self.num(me[1])
                b = self.num(me[2])
                path = tuple([self.num(i) for i in v.path])
                return Ptr(v.key, path, ("sl", a, b))
            return Ptr(v.key, tuple([self.num(i) for i in v.path]), me)
        if t is Lin:
            return self.nxt()
        if t is Op:
            return Op(v.k, *[self.opval(x) for x in v.a])
        if t is Tab:
            return Tab(v.name, self.nxt(), v.t)
        return v

    def opval(self, x):
        if isinstance(x, V):
            return self.val(x)
        if isinstance(x, (int, Lin)):
            return self.nxt()
        if isinstance(x, tuple) and x and isinstance(x[0], tuple) and x[0] and x[0][0] in ("l", "s"):
            return self.nxt()
        if isinstance(x, tuple):
            return tuple([self.opval(y) for y in x])
        return x


def rebuild(I, c, holes):
    """A copy of c.st with the canonical traversal's holes replaced."""
    st = c.st.copy()
    r = Rebuild(holes)
    fids = {fr.fid: d for d, fr in enumerate(st.frames)}
    locs = [[] for _ in st.frames]
    for k in st.mem:
        d = fids.get(k[0])
        if d is not None:
            locs[d].append(k)
    new = {}
    for d, fr in enumerate(st.frames):
        live = I.live_locals(fr.fn, fr.bb, d == len(st.frames) - 1)
        for k in sorted(locs[d], key=lambda q: q[1]):
            if live is not None and k[1] not in live:
                continue
            new[k] = r.val(st.mem[k])
    for k in sorted(st.g):
        st.g[k] = r.opval(st.g[k])
    for k in sorted(k for k in st.mem if k[0] == "s"):
        new[k] = r.val(st.mem[k])
    for k in c.order:
        v = st.mem.get(k)
        if v is not None:
            new[k] = r.val(v)
    assert r.i == len(holes), (r.i, len(holes))
    st.mem = new
    return st


def trim(a, b):
    """Common prefix, middles, common suffix of two sequences."""
    a, b = list(a), list(b)
    pre, suf = [], []
    while a and b:
        if a[0] == b[0]:
            pre.append(a.pop(0))
            b.pop(0)
            continue
        if a[0][0] == "l" and b[0][0] == "l":
            x, y = a[0][1], b[0][1]
            n = 0
            while n < len(x) and n < len(y) and x[n] == y[n]:
                n += 1
            if n == 0:
                break
            pre.append(("l", x[:n]))
            a[0:1] = [("l", x[n:])] if n < len(x) else []
            b[0:1] = [("l", y[n:])] if n < len(y) else []
            if n < len(x) and n < len(y):
                break
            continue
        break
    while a and b:
        if a[-1] == b[-1]:
            suf.insert(0, a.pop())
            b.pop()
            continue
        if a[-1][0] == "l" and b[-1][0] == "l":
            x, y = a[-1][1], b[-1][1]
            n = 0
            while n < len(x) and n < len(y) and x[-1 - n] == y[-1 - n]:
                n += 1
            if n == 0:
                break
            suf.insert(0, ("l", x[len(x) - n:]))
            a[-1:] = [("l", x[:-n])] if n < len(x) else []
            b[-1:] = [("l", y[:-n])] if n < len(y) else []
            if n < len(x) and n < len(y):
                break
            continue
        break
    return pre, tuple(a), tuple(b), suf


def whole1(n):
    return ("s", n, 0, slen(n), ID)


class Join:
    def __init__(self, I, fa, fb):
        self.I = I
        self.fa, self.fb = fa, fb
        self.pairs = {}    # (midA, midB) -> symbol name
        self.npairs = {}
        self.bad = False

    def fresh(self):
        self.I.nwide = getattr(self.I, "nwide", 0) + 1
        return "~%d" % self.I.nwide

    def seq(self, a, b):
        if a == b:
            return a
        # a range of one symbol that has moved: b continues a
        r = self.range(a, b)
        if r is not None:
            return r
        pre, x, y, suf = trim(a, b)
        k = (x, y)
        n = self.pairs.get(k)
        if n is None and len(x) == len(y) > 1:
            z = [self.piece(p, q) for p, q in zip(x, y)]
            if None not in z:
                return norm(list(pre) + z + list(suf))
        if n is None:
            n = self.fresh()
            self.pairs[k] = n
            ma = seq_mask(self.fa, x) | seq_mask(self.fb, y)
            if ma != FULL:
                BASEMASK[n] = ma
        return norm(list(pre) + [("s", n, 0, slen(n), ID)] + list(suf))

    def piece(self, p, q):
        """Two pieces that are the same or are known to correspond."""
        if p == q:
            return p
        if p[0] != "s" or q[0] != "s" or p[4] is not q[4] or p[2] != 0 or q[2] != 0 or p[3] != slen(p[1]) or q[3] != slen(q[1]):
            return None
        n = self.pairs.get(((whole1(p[1]),), (whole1(q[1]),)))
        return ("s", n, 0, slen(n), p[4]) if n else None

    def range(self, a, b):
        """Both are ranges of the same symbol (an empty one counts)."""
        pre, x, y, suf = trim(a, b)
        if len(x) > 1 or len(y) > 1 or (not x and not y):
            return None
        ax, ay = (x[0] if x else None), (y[0] if y else None)
        src = ay or ax
        if src[0] != "s" or not (src[4].name or src[4] is ID):
            return None
        if ax and ay:
            if ax[0] != "s" or ax[1] != ay[1] or ax[4] is not ay[4]:
                return None
            lo, hi = (ax[2], ay[2]), (ax[3], ay[3])
        elif ay and isinstance(ay[1], str) and not ay[1].startswith("~"):
            # empty -> range: only when one end is a position known to have moved
            if (ay[2], ay[3]) in self.npairs:
                lo, hi = (ay[2], ay[2]), (ay[2], ay[3])
            elif (ay[3], ay[2]) in self.npairs:
                lo, hi = (ay[3], ay[2]), (ay[3], ay[3])
            else:
                return None
        elif ax and (ax[3], ax[2]) in self.npairs:
            lo, hi = (ax[2], ax[2]), (ax[3], ax[2])
        elif ax and (ax[2], ax[3]) in self.npairs:
            lo, hi = (ax[2], ax[3]), (ax[3], ax[3])
        else:
            return None
        l = self.num(*lo)
        h = self.num(*hi)
        return norm(list(pre) + [("s", src[1], l, h, src[4])] + list(suf))

    def num(self, a, b):
        if a == b:
            return a
        for (x, y), n in self.pairs.items():
            d, e = lsub(a, length(x)), lsub(b, length(y))
            if d == e:
                return ladd(slen(n), d)
        for (x, y), n in self.npairs.items():
            d, e = lsub(a, x), lsub(b, y)
            if d == e:
                return ladd(sym(n), d)
        for (x, y), n in self.npairs.items():
            d, e = ladd(a, x), ladd(b, y)
            if d == e and not isinstance(d, int):
                return lsub(d, sym(n))
        if (isinstance(a, int) and a < 0) or (isinstance(b, int) and b < 0):
            raise Stop("join of negative numbers")
        n = self.npairs[(a, b)] = self.fresh()
        return sym(n)


KNOWN = [ID, ENC, compose(ENC, ENC)]


def lift(f, s, h, name):
    """s with every part of `name` expressed by h where that is the same."""
    out = []
    for a in s:
        if a[0] == "s" and a[1] == name and a[4] is not h:
            m = f.mask_range(a[1], a[2], a[3])
            if restrict(a[4], m) is restrict(h, m):
                a = ("s", a[1], a[2], a[3], h)
        out.append(a)
    return norm(out)


def harmonise(fa, a, fb, b):
    """a and b rewritten, each keeping its value, to be as alike as possible."""
    if a == b:
        return a, b
    if fb.same(b, a) is True:
        return a, a
    if fa.same(a, b) is True:
        return b, b
    names = []
    mid = trim(a, b)[1:3]
    for q in mid[0] + mid[1]:
        if q[0] == "s" and q[1] not in names and not (isinstance(q[1], str) and q[1][0] == "~"):
            if not q[4].name or all(any(w[0] == "s" and w[1] == q[1] for w in z) for z in (a, b)):
                names.append(q[1])
    for n in names:
        hs = KNOWN + [q[4] for q in a + b if q[0] == "s" and q[1] == n]
        best = None
        for h in hs:
            l, r = lift(fa, a, h, n), lift(fb, b, h, n)
            c = (len(l) + len(r), sum(1 for q in l + r if q[0] == "s" and not q[4].name))
            if best is None or c < best[0]:
                best = (c, l, r)
        a, b = best[1], best[2]
    if a == b:
        return a, b
    pre, x, y, suf = trim(a, b)
    names = []
    for q in x + y:
        if q[0] == "s" and q[1] not in names and not (isinstance(q[1], str) and q[1][0] == "~"):
            names.append(q[1])
    for n in names:
        for h in KNOWN:
            w = whole(n, h)
            if fa.same(x, w) is True and fb.same(y, w) is True:
                g = norm(list(pre) + list(w) + list(suf))
                return g, g
    return a, b


def seq_mask(f, s):
    m = 0
    for a in s:
        if a[0] == "l":
            m |= mask_of(a[1])
        else:
            for b in mask_bytes(f.mask_range(a[1], a[2], a[3])):
                o = a[4].t[b]
                if o is None:
                    continue
                m |= mask_of(o)
    return m


def subst_seq(s, smap, nmap):
    out = []
    for a in s:
        if a[0] == "l":
            out.append(a)
            continue
        _, n, lo, hi, h = a
        if n in smap and lo == 0 and hi == slen(n):
            out.extend(apply(h, smap[n]))
        else:
            out.append(("s", n, subst_lin(lo, smap, nmap), subst_lin(hi, smap, nmap), h))
    return norm(out)


def subst_lin(x, smap, nmap):
    if isinstance(x, int):
        return x
    r = x.c
    for s, k in x.t:
        if isinstance(s, tuple) and s[0] == "len" and s[1] in smap:
            r = ladd(r, length(smap[s[1]]), k)
        elif s in nmap:
            r = ladd(r, nmap[s], k)
        else:
            r = ladd(r, sym(s), k)
    return r


def fact_conds(f):
    for x in f.lin:
        yield ("ge", x)
    for n, lo, hi, m in f.masks:
        yield ("mask", n, lo, hi, m)
    for a, b, st in f.order:
        yield ("<" if st else "<=", a, b)


def entails(f, c):
    if c[0] == "mask":
        m = f.mask_range(c[1], c[2], c[3])
        return m & ~c[4] == 0
    return f.query(c) is True


def subst_cond(c, smap, nmap):
    k = c[0]
    if k == "ge":
        return ("ge", subst_lin(c[1], smap, nmap))
    if k == "mask":
        return ("mask", c[1], subst_lin(c[2], smap, nmap), subst_lin(c[3], smap, nmap), c[4])
    return (k, subst_seq(c[1], smap, nmap), subst_seq(c[2], smap, nmap))


def add_cond(f, c):
    if c[0] == "ge":
        if not isinstance(c[1], int):
            f.lin += (c[1],)
    elif c[0] == "mask":
        f.masks += (c[1:],)
    else:
        f.order += ((c[1], c[2], c[0] == "<"),)


class Match:
    """One-way match of an invariant's holes against a state's."""

    def __init__(self, finv, fst):
        self.s, self.n = {}, {}
        self.finv, self.fst = finv, fst

    def seq(self, g, x):
        """g may mention flexible symbols (~n); find what they stand for."""
        if g == x:
            # flexible symbols stand for themselves
            return all(self.bind(a[1], whole(a[1])) for a in g if a[0] == "s" and isinstance(a[1], str) and a[1][0] == "~" and a[2] == 0)
        flex = [i for i, a in enumerate(g) if a[0] == "s" and isinstance(a[1], str) and a[1][0] == "~" and a[2] == 0 and a[3] == slen(a[1]) and a[4] is ID]
        if len(flex) == 1:
            i = flex[0]
            pre, suf = norm(g[:i]), norm(g[i + 1:])
            m = strip(x, pre, suf)
            if m is None:
                return False
            return self.bind(g[i][1], m)
        if not flex:
            g2, x2 = g, x
            if len(g2) == len(x2):
                for a, b in zip(g2, x2):
                    if a == b and a[0] == "l":
                        continue
                    if a[0] != "s" or b[0] != "s" or a[1] != b[1] or a[4] is not b[4]:
                        return False
                    if not self.num(a[2], b[2]) or not self.num(a[3], b[3]):
                        return False
                return True
            if len(g2) == len(x2) + 1:
                # one range of g is empty in x
                for j, a in enumerate(g2):
                    if a[0] == "s" and norm(g2[:j] + g2[j + 1:]) == x2:
                        if isinstance(a[2], int):
                            return self.num(a[3], a[2])
                        if a[2] == a[3]:
                            return self.num(a[2], 0) and self.num(a[3], 0)
                        return self.num(a[3], subst_lin(a[2], self.s, self.n)) or self.num(a[2], subst_lin(a[3], self.s, self.n))
            return False
        # several: those that stand for themselves, until one is left
        i, k = flex[0], flex[-1]
        y = strip(x, norm(g[:i]), ())
        if y and y[0] == g[i] and self.bind(g[i][1], (g[i],)):
            return self.seq(norm(g[i + 1:]), y[1:])
        y = strip(x, (), norm(g[k + 1:]))
        if y and y[-1] == g[k] and self.bind(g[k][1], (g[k],)):
            return self.seq(norm(g[:k]), y[:-1])
        g2 = subst_seq(g, {n: v for n, v in self.s.items() if v != whole(n)}, {})
        if g2 != g:
            return self.seq(g2, x)
        return False

    def bind(self, n, m):
        o = self.s.get(n)
        if o is None:
            self.s[n] = m
            return True
        return o == m

    def num(self, g, x):
        if g == x and not any(isinstance(s, str) and s[0] == "~" for s in lsyms(g)):
            return True
        g2 = subst_lin(g, self.s, self.n)
        if g2 == x:
            return True
        fl = [s for s in lsyms(g) if isinstance(s, str) and s[0] == "~" and s not in self.n]
        if len(fl) == 1 and dict(g.t)[fl[0]] == 1:
            rest = subst_lin(lsub(g, sym(fl[0])), self.s, self.n)
            self.n[fl[0]] = lsub(x, rest)
            return True
        if not fl:
            return self.fst.eq0(lsub(g2, x)) is True
        return False


def free(g, m):
    """Whether g mentions a symbol of the invariant that is not bound yet."""
    for a in g:
        if a[0] == "s":
            if isinstance(a[1], str) and a[1][0] == "~" and a[1] not in m.s:
                return True
            for y in (a[2], a[3]):
                for q in lsyms(y):
                    if isinstance(q, str) and q[0] == "~" and q not in m.n:
                        return True
                    if isinstance(q, tuple) and q[0] == "len" and q[1][0] == "~" and q[1] not in m.s:
                        return True
    return False


def strip(x, pre, suf):
    """x without the given prefix and suffix, or None."""
    x = list(x)
    for p in pre:
        if not x:
            return None
        if p[0] == "l":
            if x[0][0] != "l" or not x[0][1].startswith(p[1]):
                return None
            r = x[0][1][len(p[1]):]
            x[0:1] = [("l", r)] if r else []
        else:
            if x[0] != p:
                return None
            x.pop(0)
    for p in reversed(suf):
        if not x:
            return None
        if p[0] == "l":
            if x[-1][0] != "l" or not x[-1][1].endswith(p[1]):
                return None
            r = x[-1][1][:len(x[-1][1]) - len(p[1])]
            x[-1:] = [("l", r)] if r else []
        else:
            if x[-1] != p:
                return None
            x.pop()
    return tuple(x)


WHY = []


def subsumed(inv, c):
    """Whether the state of c is an instance of the invariant."""
    r = subsumed_(inv, c)
    WHY[:] = [r]
    return r is None


def subsumed_(inv, c):
    m = Match(inv.st.facts, c.st.facts)
    # what fixes the moving positions first
    seqs, nums, late = [], [], []
    for g, x in zip(inv.holes, c.holes):
        if g[0] == "s":
            seqs.append((g[1], x[1]))
        else:
            nums.append((g[1], x[1]))
    for g, x in nums:
        if not m.num(g, x):
            late.append((g, x))
    lseq = []
    for g, x in seqs:
        save = dict(m.s), dict(m.n)
        if not m.seq(g, x):
            m.s, m.n = save
            lseq.append((g, x))
    for g, x in lseq:
        g2 = subst_seq(g, m.s, m.n)
        if free(g, m) or c.st.facts.same(g2, x) is not True:
            return (show(g), show(x))
    for g, x in late:
        if not m.num(g, x):
            return (g, x)
    for cond in fact_conds(inv.st.facts):
        if not entails(c.st.facts, subst_cond(cond, m.s, m.n)):
            return (cond, subst_cond(cond, m.s, m.n))
    for n, s in m.s.items():
        bm = base_mask(n)
        if bm != FULL and seq_mask(c.st.facts, s) & ~bm:
            return (n, hex(bm))
    return None


def join(I, inv, c, widen=False):
    """The join of an invariant and a state with the same skeleton."""
    fa, fb = inv.st.facts, c.st.facts
    j = Join(I, fa, fb)
    # positions first: ranges refer to them
    pend = []
    out = [None] * len(inv.holes)
    ha, hb = [], []
    for g, x in zip(inv.holes, c.holes):
        if g[0] == "s":
            a, b = harmonise(fa, g[1], fb, x[1])
            ha.append(("s", a))
            hb.append(("s", b))
        else:
            ha.append(g)
            hb.append(x)
    for i, (g, x) in enumerate(zip(ha, hb)):
        if g[0] == "s":
            pre, a, b, suf = trim(g[1], x[1])
            if len(a) <= 1 and len(b) <= 1 and (a or b) and all(q[0] == "s" for q in a + b) and len({q[1] for q in a + b}) == 1:
                pend.append(i)
                continue
            out[i] = ("s", j.seq(g[1], x[1]))
    # ranges with both sides first, as they fix the moving positions
    pend.sort(key=lambda i: 0 if ha[i][1] and hb[i][1] and len(trim(ha[i][1], hb[i][1])[1]) else 1)
    for i in pend:
        out[i] = ("s", j.seq(ha[i][1], hb[i][1]))
    for i, (g, x) in enumerate(zip(ha, hb)):
        if g[0] == "n":
            out[i] = ("n", j.num(g[1], x[1]))
    st = rebuild(I, c, out)
    f = Facts()
    # what the new symbols stand for on either side
    sa = {n: k[0] for k, n in j.pairs.items()}
    sb = {n: k[1] for k, n in j.pairs.items()}
    na = {n: k[0] for k, n in j.npairs.items()}
    nb = {n: k[1] for k, n in j.npairs.items()}
    # candidates: facts of either side, also with their values renamed to the new symbols
    cands = []
    # (once widening, only what was already known can be kept)
    for src, ren_s, ren_n in ((fa, sa, na),) if widen else ((fa, sa, na), (fb, sb, nb)):
        for cnd in fact_conds(src):
            cands.append(cnd)
            cands.extend(rename_cond(cnd, ren_s, ren_n))
    seen = set()
    for cnd in cands:
        if cnd in seen:
            continue
        seen.add(cnd)
        ca, cb = subst_cond(cnd, sa, na), subst_cond(cnd, sb, nb)
        if entails(fa, ca) and entails(fb, cb):
            if cnd[0] == "mask" and fa.ge0(lsub(ca[2], ca[3])) is True and fb.ge0(lsub(cb[2], cb[3])) is True:
                continue
            if not trivially(f, cnd):
                add_cond(f, cnd)
    # positions and lengths
    lens = {sym(q) for g in out if g[0] == "s" for a in g[1] if a[0] == "s" for y in (a[2], a[3]) for q in lsyms(y) if isinstance(q, tuple) and q[0] == "len"} if na else ()
    for n in na:
        lows = [v[n] for v in (na, nb) if isinstance(v[n], int)]
        for d in [lsub(L, sym(n)) for L in lens] + [lsub(sym(n), k) for k in lows]:
            c_ = ("ge", d)
            if entails(fa, subst_cond(c_, sa, na)) and entails(fb, subst_cond(c_, sb, nb)) and not trivially(f, c_):
                add_cond(f, c_)
    for n, v in list(na.items()):
        for o, w in list(na.items()):
            if n != o:
                d = ("ge", lsub(sym(n), sym(o)))
                if entails(fa, subst_cond(d, sa, na)) and entails(fb, subst_cond(d, sb, nb)) and not trivially(f, d):
                    add_cond(f, d)
    nums = []
    for g in out:
        if g[0] == "n" and isinstance(g[1], Lin) and g[1] not in nums:
            nums.append(g[1])
    if na and len(nums) <= 12:
        for x in nums:
            for y in nums:
                d = lsub(y, x)
                if isinstance(d, int) or not any(q in na for q in lsyms(d)):
                    continue
                c_ = ("ge", d)
                if not trivially(f, c_) and entails(fa, subst_cond(c_, sa, na)) and entails(fb, subst_cond(c_, sb, nb)):
                    add_cond(f, c_)
    # byte classes of ranges that grow
    for name, rlo, rhi in ranges_of(out):
        ma = fa.mask_range(name, subst_lin(rlo, sa, na), subst_lin(rhi, sa, na))
        mb = fb.mask_range(name, subst_lin(rlo, sb, nb), subst_lin(rhi, sb, nb))
        mm = ma | mb
        if mm & base_mask(name) != base_mask(name):
            add_cond(f, ("mask", name, rlo, rhi, mm))
    f.nd = tuple(x for x in fa.nd if x in fb.nd)
    f.has = tuple(x for x in fa.has if x in fb.has)
    st.facts = f.tidy()
    st.nsym = max(inv.st.nsym, c.st.nsym)
    st.nfid = max(inv.st.nfid, c.st.nfid)
    st.wide = True
    return st


def drop_dead(f, c):
    """Forgets facts about join symbols the state no longer mentions."""
    live = set()
    def see(x):
        if isinstance(x, Lin):
            for q in lsyms(x):
                if isinstance(q, str) and q[0] == "~":
                    live.add(q)
                elif isinstance(q, tuple) and q[0] == "len":
                    live.add(q[1])
                elif isinstance(q, tuple):
                    seeq((q[1],))
    def seeq(s):
        for a in s:
            if a[0] == "s":
                live.add(a[1])
                see(a[2])
                see(a[3])
    for k, h in c.holes:
        if k == "n":
            see(h)
        else:
            seeq(h)
    # (inputs stay: the specification may mention them later)
    def dead(x):
        for q in lsyms(x):
            if isinstance(q, str) and q[0] == "~" and q not in live:
                return True
            if isinstance(q, tuple) and q[0] == "len" and q[1][0] == "~" and q[1] not in live:
                return True
        return False
    # a forgotten position that equals a live expression is replaced by it
    for _ in range(8):
        sub = None
        ls = set(f.lin)
        for x in f.lin:
            if isinstance(x, Lin) and lscale(x, -1) in ls:
                for q, k in x.t:
                    if abs(k) == 1 and isinstance(q, str) and q[0] == "~" and q not in live:
                        sub = {q: lscale(lsub(x, lscale(sym(q), k)), -k)}
                        break
            if sub:
                break
        if not sub:
            break
        f.lin = tuple(y for y in (subst_lin(x, {}, sub) for x in f.lin) if not isinstance(y, int) or y < 0)
        f.masks = tuple((n, subst_lin(a, {}, sub), subst_lin(b, {}, sub), m) for n, a, b, m in f.masks)
    f.lin = tuple(x for x in f.lin if not dead(x))
    f.masks = tuple(m for m in f.masks if not (m[0][0] == "~" and m[0] not in live) and not dead(m[1]) and not dead(m[2]))


def ranges_of(holes):
    s = set()
    pts = {}
    for h in holes:
        if h[0] == "s":
            for a in h[1]:
                if a[0] == "s":
                    pts.setdefault(a[1], set()).update([a[2], a[3]])
                    s.add((a[1], a[2], a[3]))
    for n, ps in pts.items():
        ps = list(ps)
        for a in ps:
            for b in ps:
                if a is not b and any(isinstance(x, str) and x[0] == "~" for x in lsyms(a) + lsyms(b)):
                    s.add((n, a, b))
    return s


def trivially(f, c):
    return entails(f, c)


def rename_cond(c, smap, nmap):
    """The condition with values replaced by the symbols that stand for them."""
    out = []
    k = c[0]
    if k == "mask":
        def alts(p):
            r = one(p)
            for q in r[1:]:
                if isinstance(q, Lin) and len(q.t) > 1:
                    r += [w for w in one(q)[1:] if w not in r]
            return r

        def one(p):
            r = [p]
            for n, v in nmap.items():
                d = lsub(p, v)
                if isinstance(d, int):
                    if abs(d) < 3:
                        r.append(ladd(sym(n), d))
                elif isinstance(v, int):
                    if 0 < v and abs(p.c - v) < 3:
                        r.append(ladd(d, sym(n)))
                elif isinstance(p, Lin) and len(d.t) < len(p.t):
                    r.append(ladd(d, sym(n)))
            return r
        for lo in alts(c[2]):
            for hi in alts(c[3]):
                if (lo, hi) != (c[2], c[3]):
                    out.append(("mask", c[1], lo, hi, c[4]))
    elif k in ("<", "<="):
        def alts(p):
            return [p] + [whole(n) for n, v in smap.items() if v and v == p]
        for a in alts(c[1]):
            for b in alts(c[2]):
                for w in (k, "<="):
                    if (w, a, b) != c and (w, a, b) not in out:
                        out.append((w, a, b))
    elif k == "ge":
        x = c[1]
        if all(isinstance(q, str) and q.startswith("n:") for q in lsyms(x)):
            return out
        for n, v in nmap.items():
            if isinstance(v, Lin) and len(v.t) == 1 and v.c == 0 and v.t[0][1] == 1:
                s = v.t[0][0]
                d = dict(x.t).get(s)
                if d:
                    out.append(("ge", ladd(lsub(x, lscale(sym(s), d)), lscale(sym(n), d))))
            elif isinstance(v, Lin):
                # x mentions v as a whole
                for sgn in (1, -1):
                    r = lsub(x, lscale(v, sgn))
                    if len(lsyms(r)) < len(lsyms(x)):
                        out.append(("ge", ladd(r, lscale(sym(n), sgn))))
        for n, v in smap.items():
            L = length(v)
            if isinstance(L, Lin):
                for sgn in (1, -1):
                    r = lsub(x, lscale(L, sgn))
                    if len(lsyms(r)) < len(lsyms(x)):
                        out.append(("ge", ladd(r, lscale(slen(n), sgn))))
    return out


def diff(a, b):
    if type(a) is tuple and type(b) is tuple:
        if len(a) != len(b):
            return ("len", len(a), len(b), str(a)[:300], str(b)[:300])
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y)
            if d:
                return (i,) + d
        return ()
    return () if a == b else (str(a)[:200], str(b)[:200])
