"""What is known about the inputs on a path: linear inequalities over lengths and positions, byte
classes of ranges, and the order of strings."""
from math import gcd
from seq import *


class Split(Exception):
    """The answer to a question depends on the inputs: the path is partitioned on it."""

    def __init__(self, cond):
        self.cond = cond


FM = {}
GE = {}


def infeasible(cons):
    rows = {}
    ids = {}
    names = []

    def add(rows, t, c):
        """t: dict sym -> coefficient"""
        if not t:
            return c < 0
        if c >= 0:
            for k in t.values():
                if k < 0:
                    break
            else:
                return False
        g = 0
        for k in t.values():
            g = gcd(g, k)
        if g > 1:
            t = {s: k // g for s, k in t.items()}
            c = c // g
        key = tuple(sorted(t.items()))
        o = rows.get(key)
        if o is None or c < o:
            rows[key] = c
        return False

    for x in cons:
        if isinstance(x, int):
            if x < 0:
                return True
            continue
        t = {}
        for s, k in x.t:
            i = ids.get(s)
            if i is None:
                i = ids[s] = len(names)
                names.append(s)
            t[i] = k
        if add(rows, t, x.c):
            return True
    left = set(range(len(names)))
    while left:
        cnt = {s: [0, 1] for s in left}  # [negative, positive]; the symbol itself is >= 0
        for key in rows:
            for s, k in key:
                cnt[s][k > 0] += 1
        s = min(left, key=lambda q: cnt[q][0] * cnt[q][1] - cnt[q][0] - cnt[q][1])
        left.discard(s)
        pos, neg, rest = [({s: 1}, 0, 1)], [], {}
        for key, c in rows.items():
            d = dict(key)
            k = d.get(s, 0)
            if k > 0:
                pos.append((d, c, k))
            elif k < 0:
                neg.append((d, c, -k))
            else:
                rest[key] = c
        if len(pos) * len(neg) > 3000:
            return False
        for dp, cp, kp in pos:
            for dn, cn, kn in neg:
                t = {}
                for q, k in dp.items():
                    if q != s:
                        t[q] = k * kn
                for q, k in dn.items():
                    if q != s:
                        v = t.get(q, 0) + k * kp
                        if v:
                            t[q] = v
                        else:
                            t.pop(q, None)
                if add(rest, t, cp * kn + cn * kp):
                    return True
        rows = rest
        if len(rows) > 400:
            return False
    return False


def fused(rows, seed):
    """The length of a piece of encoded text is the sum of the lengths of its parts."""
    g = {}
    for r in rows + [seed]:
        for s in lsyms(r):
            if isinstance(s, tuple) and s[0] == "alen":
                g.setdefault((s[1][1], s[1][4]), set()).add(s[1])
    out = []
    for k, v in g.items():
        if len(v) < 2:
            continue
        for a in v:
            for w in v:
                if a is not w and (a[2] == w[2] and a[2] == 0 and w[3] == slen(k[0]) or a[3] == w[3] and w[2] == 0):
                    out.append(lsub(sym(("alen", w)), sym(("alen", a))))
            for b in v:
                if a is not b and a[3] == b[2] and a[2] != b[3]:
                    w = ("s", k[0], a[2], b[3], k[1])
                    if w in v:
                        d = lsub(sym(("alen", w)), ladd(sym(("alen", a)), sym(("alen", b))))
                        out += [d, lscale(d, -1)]
    return out


def empty_cmp(c):
    """A comparison with the empty string as a statement on lengths."""
    k, a, b = c
    if k == "==":
        return ("eq", length(a or b))
    if k == "<":
        return ("ge", lsub(length(b), 1)) if not a else ("ge", -1)
    return ("ge", 0) if not a else ("eq", length(a))


BUSY = set()


def bytes_known(u, v):
    """The bytes of a symbol that is equal to a literal."""
    l, w = (lit_of(u), v) if lit_of(u) is not None else (lit_of(v), u)
    if l is None or len(l) > 16:
        return ()
    if len(w) != 1 or w[0][0] != "s" or not w[0][4].one:
        return ()
    _, n, lo, hi, h = w[0]
    out = []
    for i, c in enumerate(l):
        m = mask_of([b for b in range(256) if h.t[b] == bytes([c])])
        p = ladd(lo, i)
        out.append((n, p, ladd(p, 1), m))
    return tuple(out)


def byte_excluded(f, u, v):
    """A single byte which is not that of a literal."""
    l, w = (lit_of(u), v) if lit_of(u) is not None else (lit_of(v), u)
    if l is None or len(l) != 1 or len(w) != 1 or w[0][0] != "s" or not w[0][4].one:
        return ()
    _, n, lo, hi, h = w[0]
    if f.eq0(lsub(hi, ladd(lo, 1))) is not True:
        return ()
    return ((n, lo, hi, mask_of([b for b in range(256) if h.t[b] != l])),)


class Facts:
    __slots__ = ("lin", "masks", "has", "order", "nd")

    def __init__(self):
        self.lin = ()      # Lin >= 0 each
        self.masks = ()    # (name, lo, hi, mask)
        self.has = ()      # (name, lo, hi, mask): some byte of the range is in mask
        self.order = ()    # (A, B, strict) meaning A < B or A <= B, for sequences A and B
        self.nd = ()       # (key, bool) answers to free choices

    def copy(self):
        f = Facts()
        f.lin, f.masks, f.has, f.order, f.nd = self.lin, self.masks, self.has, self.order, self.nd
        return f

    # -- linear part -----------------------------------------------------------------------
    def _infeasible(self, cons):
        """Whether the conjunction of `x >= 0` for x in cons (all symbols are >= 0) is
        unsatisfiable over the rationals with integer tightening (Fourier-Motzkin)."""
        key = frozenset(cons)
        r = FM.get(key)
        if r is None:
            if len(FM) > 50000:
                FM.clear()
            r = FM[key] = infeasible(cons)
        return r

    def _relevant(self, seed):
        """The facts connected to the symbols of `seed`."""
        syms = set(lsyms(seed))
        rows = list(self.lin)
        rows += fused(rows, seed)
        seen = set()
        chg = True
        out = []
        while chg:
            chg = False
            for s in list(syms):
                if s in seen:
                    continue
                seen.add(s)
                if isinstance(s, tuple) and s[0] == "len" and isinstance(s[1], tuple) and s[1][0] == "b64url":
                    d = length(s[1][1])
                    out.append(lsub(ladd(lscale(d, 4), 2), lscale(sym(s), 3)))
                    out.append(lsub(lscale(sym(s), 3), lscale(d, 4)))
                    syms.update(lsyms(d))
                    chg = True
                if isinstance(s, tuple) and s[0] == "alen":
                    a = s[1]
                    mk = self.class_of(a)
                    ks = [len(x) for b, x in enumerate(a[4].t) if x is not None and mk >> b & 1] or [1]
                    d = lsub(a[3], a[2])
                    out.append(lsub(sym(s), lscale(d, min(ks))))
                    out.append(lsub(lscale(d, max(ks)), sym(s)))
                    syms.update(lsyms(d))
                    chg = True
            nr = []
            for r in rows:
                if any(x in syms for x in lsyms(r)):
                    out.append(r)
                    syms.update(lsyms(r))
                    chg = True
                else:
                    nr.append(r)
            rows = nr
        return out

    def class_of(self, a):
        """The bytes that may occur in the piece."""
        if not any(r[0] == a[1] for r in self.masks) or a in BUSY:
            return FULL
        BUSY.add(a)
        try:
            return self.mask_range(a[1], a[2], a[3])
        finally:
            BUSY.discard(a)

    def ge0(self, x):
        """Whether x >= 0 is entailed (True), refuted (False) or open (None)."""
        if isinstance(x, int):
            return x >= 0
        if x.c >= 0:
            for _, k in x.t:
                if k < 0:
                    break
            else:
                return True
        if BUSY:
            return self._ge0(x)
        k = id(self.lin), id(self.masks)
        e = GE.get(k)
        if e is None:
            if len(GE) > 300:
                for o in list(GE)[:150]:
                    del GE[o]
            e = GE[k] = (self.lin, self.masks, {})      # holds on to both, so that their ids stay theirs
        r = e[2].get(x, e)
        if r is e:
            r = e[2][x] = self._ge0(x)
        return r

    def _ge0(self, x):
        rel = self._relevant(x)
        if self._infeasible(rel + [lsub(lscale(x, -1), 1)]):
            return True
        if self._infeasible(rel + [x]):
            return False
        return None

    def eq0(self, x):
        if isinstance(x, int):
            return x == 0
        a = self.ge0(x)
        b = self.ge0(lscale(x, -1))
        if a is True and b is True:
            return True
        if a is False or b is False:
            return False
        for n, v in self.nd:
            if v and isinstance(n, tuple) and n[0] == "ne" and (n[1] == x or n[1] == lscale(x, -1)):
                return False
        return None

    def leq(self, a, b):
        return self.ge0(lsub(b, a))

    def lin_ok(self):
        return not self._infeasible(self.lin)

    # -- byte classes ------------------------------------------------------------------------
    def mask_at(self, name, i):
        m = base_mask(name)
        for n, lo, hi, k in self.masks:
            if n == name and (m & ~k) and self.leq(lo, i) is True and self.leq(ladd(i, 1), hi) is True:
                m &= k
        return m

    def mask_range(self, name, lo, hi):
        """The class all bytes in the range are known to be in."""
        m = base_mask(name)
        if self.eq0(lsub(hi, lo)) is True:
            return 0
        # one fact covering it, or a chain of adjacent facts
        pos = lo
        acc = 0
        rows = [r for r in self.masks if r[0] == name]
        full = m
        for n, l, h, k in rows:
            if self.leq(l, lo) is True and self.leq(hi, h) is True:
                full &= k
        m = full
        if m == base_mask(name) and len(rows) > 1:
            guard = 0
            while guard < 50:
                guard += 1
                if self.eq0(lsub(hi, pos)) is True:
                    return m & acc
                cov = [(h, k) for n, l, h, k in rows if self.leq(l, pos) is True and self.leq(ladd(pos, 1), h) is True]
                if not cov:
                    return m
                e = cov[0][0]
                for h, k in cov[1:]:
                    if self.leq(h, e) is True:
                        e = h
                seg = FULL
                for h, k in cov:
                    if self.leq(e, h) is True:
                        seg &= k
                acc |= seg
                pos = e
                if self.leq(hi, pos) is True:
                    return m & acc
        return m

    def tidy(self):
        """The same facts without the redundant ones."""
        best = {}
        for x in self.lin:
            if isinstance(x, int):
                continue
            o = best.get(x.t)
            if o is None or x.c < o.c:
                best[x.t] = x
        self.lin = tuple(best.values())
        by = {}
        for n, lo, hi, m in self.masks:
            k = (n, lo, hi)
            by[k] = by.get(k, FULL) & m
        rows = [k + (m & base_mask(k[0]),) for k, m in by.items()]
        rows = [r for r in rows if self.ge0(lsub(r[1], r[2])) is not True]
        chg = True
        while chg:
            chg = False
            for i, a in enumerate(rows):
                for j, b in enumerate(rows):
                    if i == j or a[0] != b[0]:
                        continue
                    if b[3] & ~a[3] == 0 and self.leq(b[1], a[1]) is True and self.leq(a[2], b[2]) is True:
                        del rows[i]   # b says at least as much
                        chg = True
                        break
                    if a[3] == b[3] and self.leq(b[1], a[2]) is True and self.leq(a[1], b[1]) is True and self.leq(a[2], b[2]) is True:
                        rows[i] = (a[0], a[1], b[2], a[3])
                        del rows[j]
                        chg = True
                        break
                if chg:
                    break
        self.masks = tuple(rows)
        return self

    # -- string order --------------------------------------------------------------------------
    def path(self, a, b):
        """0: no known relation; 1: a <= b; 2: a < b"""
        best = {a: 1}
        todo = [a]
        lits = {x for e in self.order for x in e[:2] if is_lit(x)}
        if is_lit(b):
            lits.add(b)
        if is_lit(a):
            lits.add(a)
        while todo:
            x = todo.pop()
            k = best[x]
            nxt = [(v, 2 if (k == 2 or st) else 1) for u, v, st in self.order if u == x]
            if is_lit(x):
                lx = lit_of(x)
                for y in lits:
                    ly = lit_of(y)
                    if lx < ly:
                        nxt.append((y, 2))
            if () != x and k < 2:
                pass
            for v, q in nxt:
                if best.get(v, 0) < q:
                    best[v] = q
                    todo.append(v)
        return best.get(b, 0)

    def spelled(self, l, s):
        """Whether the bytes known of s are those of the literal: True, False, None (not known)."""
        if len(s) != 1 or s[0][0] != "s" or s[0][4] is not ID or len(l) > 64 or not any(r[0] == s[0][1] for r in self.masks):
            return None
        e = self.eq0(lsub(length(s), len(l)))
        if e is not True:
            return e
        r = True
        for i, c in enumerate(l):
            m = self.mask_at(s[0][1], ladd(s[0][2], i))
            if not m >> c & 1:
                return False
            if m != 1 << c:
                r = None
        return r

    def cmp(self, a, b):
        """The set of possible orderings of a and b as a string out of '<=>'."""
        if a == b:
            return "="
        la, lb = lit_of(a), lit_of(b)
        if la is not None and lb is not None:
            return "<" if la < lb else ">" if la > lb else "="
        z = self.spelled(la, b) if la is not None else self.spelled(lb, a) if lb is not None else None
        if z is True:
            return "="
        # common literal prefix that decides
        if a and b and a[0][0] == "l" and b[0][0] == "l":
            x, y = a[0][1], b[0][1]
            n = min(len(x), len(y))
            if x[:n] != y[:n]:
                return "<" if x < y else ">"
        p, q = self.path(a, b), self.path(b, a)
        r = "<=>"
        if p == 2:
            return "<"
        if q == 2:
            return ">"
        if p == 1 and q == 1:
            return "="
        if p == 1 or not a:
            r = "<="
        elif q == 1 or not b:
            r = "=>"
        if "=" in r and (z is False or self.definitely_ne(a, b)):
            r = r.replace("=", "")
        return r

    def definitely_ne(self, a, b):
        for x, v in self.nd:
            if isinstance(x, tuple) and x[0] == "sne" and (x[1:] == (a, b) or x[1:] == (b, a)):
                return True
        d = lsub(length(a), length(b))
        return self.eq0(d) is False

    # -- questions and answers ------------------------------------------------------------------
    def query(self, c):
        k = c[0]
        if k == "ge":
            return self.ge0(c[1])
        if k == "eq":
            r = self.eq0(c[1])
            if r is None:
                m = lscale(c[1], -1)
                for a, v in self.nd:
                    if isinstance(a, tuple) and a[0] == "ne" and (a[1] == c[1] or a[1] == m):
                        return False
            return r
        if k == "in":  # byte (name, i) in mask
            m = self.mask_at(c[1], c[2])
            if m & ~c[3] == 0:
                return True
            if m & c[3] == 0:
                return False
            return None
        if k == "has":  # some byte of (name, lo, hi) in mask
            m = self.mask_range(c[1], c[2], c[3])
            if m & c[4] == 0:
                return False
            if c[1:] in self.has:
                return True
            for n, lo, hi, mk in self.has:
                if n == c[1] and mk & ~c[4] == 0 and self.leq(c[2], lo) is True and self.leq(hi, c[3]) is True:
                    return True
            if self.ge0(lsub(c[3], ladd(c[2], 1))) is True and m & ~c[4] == 0:
                return True
            return None
        if k in ("<", "<=", "==") and not (c[1] and c[2]):
            return self.query(empty_cmp(c))
        if k in ("<", "<=", "=="):
            r = self.cmp(c[1], c[2])
            yes = {"<": "<", "<=": "<=", "==": "="}[k]
            if all(x in yes for x in r):
                return True
            if not any(x in yes for x in r):
                return False
            return None
        if k == "nd":
            for a, v in self.nd:
                if a == c[1]:
                    return v
            return None
        if k == "not":
            r = self.query(c[1])
            return None if r is None else not r
        raise Exception("cond %r" % (c,))

    def decide(self, c):
        r = self.query(c)
        if r is None:
            raise Split(c)
        return r

    def assume(self, c, val=True):
        """Facts with `c == val` added, or None if that is contradictory."""
        q = self.query(c)
        if q is not None:
            return self if q == val else None
        f = self.copy()
        k = c[0]
        if k in ("<", "<=", "==") and not (c[1] and c[2]):
            return self.assume(empty_cmp(c), val)
        if k == "not":
            return self.assume(c[1], not val)
        if k == "ge":
            f.lin += (c[1] if val else lsub(lscale(c[1], -1), 1),)
        elif k == "eq":
            if val:
                f.lin += (c[1], lscale(c[1], -1))
            else:
                # either side: keep what is known
                if self.ge0(c[1]) is True:
                    f.lin += (lsub(c[1], 1),)
                elif self.ge0(lscale(c[1], -1)) is True:
                    f.lin += (lsub(lscale(c[1], -1), 1),)
                else:
                    f.nd += ((("ne", c[1]), True),)
        elif k == "in":
            m = c[3] if val else FULL & ~c[3]
            f.masks += ((c[1], c[2], ladd(c[2], 1), m),)
        elif k == "has":
            if val:
                f.has += (c[1:],)
                f.lin += (lsub(c[3], ladd(c[2], 1)),)
            else:
                f.masks += ((c[1], c[2], c[3], FULL & ~c[4]),)
        elif k == "<":
            f.order += ((c[1], c[2], True),) if val else ((c[2], c[1], False),)
        elif k == "<=":
            f.order += ((c[1], c[2], False),) if val else ((c[2], c[1], True),)
        elif k == "==":
            if val:
                f.order += ((c[1], c[2], False), (c[2], c[1], False))
                d = lsub(length(c[1]), length(c[2]))
                if not isinstance(d, int):
                    f.lin += (d, lscale(d, -1))
                f.masks += bytes_known(c[1], c[2])
            else:
                r = self.cmp(c[1], c[2])
                f.masks += byte_excluded(self, c[1], c[2])
                if r == "<=":
                    f.order += ((c[1], c[2], True),)
                elif r == "=>":
                    f.order += ((c[2], c[1], True),)
                else:
                    f.nd += ((("sne", c[1], c[2]), True),)
        elif k == "nd":
            f.nd += ((c[1], val),)
        if k in ("ge", "eq", "has", "=="):
            if not f.lin_ok():
                return None
            for n, v in f.nd:
                if v and isinstance(n, tuple) and n[0] == "ne" and f.ge0(n[1]) is True and f.ge0(lscale(n[1], -1)) is True:
                    return None
        return f

    # -- equality of sequences -----------------------------------------------------------------
    def resolve(self, s):
        """Replaces whole symbols known to be equal to a literal or to another symbol, also within
        the arguments of functions, and drops what is known to be empty."""
        out = []
        for a in s:
            if a[0] != "s":
                out.append(a)
                continue
            _, n, lo, hi, h = a
            if self.eq0(lsub(hi, lo)) is True:
                continue
            if lo == 0 and hi == slen(n):
                if isinstance(n, tuple):
                    m = tuple(self.resolve(x) if isinstance(x, tuple) and x and all(isinstance(y, tuple) and y and y[0] in ("l", "s") for y in x) else x for x in n)
                    if m != n:
                        out.extend(apply(h, whole(m)))
                        continue
                else:
                    w = (("s", n, 0, hi, ID),)
                    best = None
                    for u, v, st in self.order:
                        if u == w and v != u and (v, u, False) in self.order:
                            if is_lit(v):
                                best = v
                                break
                            if len(v) == 1 and isinstance(v[0][1], str) and v == whole(v[0][1]) and v[0][1] < n and (best is None or v[0][1] < best[0][1]):
                                best = v
                    if best is not None:
                        out.extend(apply(h, best) if is_lit(best) else self.resolve(apply(h, best)))
                        continue
            out.append(a)
        return norm(out)

    def same(self, a, b):
        """Whether a and b denote the same bytes: True, False (they differ for some input on this
        path) or None (not known)."""
        if a == b:
            return True
        a, b = list(self.resolve(a)), list(self.resolve(b))
        a.reverse()
        b.reverse()
        while a and b:
            x, y = a.pop(), b.pop()
            if x == y:
                continue
            if x[0] == "l" and y[0] == "l":
                n = min(len(x[1]), len(y[1]))
                if x[1][:n] != y[1][:n]:
                    return None if has_unk(a) or has_unk(b) else False
                if len(x[1]) > n:
                    a.append(("l", x[1][n:]))
                if len(y[1]) > n:
                    b.append(("l", y[1][n:]))
                continue
            # a literal against a symbol whose first byte is known
            if x[0] != y[0]:
                u, side = (x, a) if x[0] == "s" else (y, b)
                if self.ge0(lsub(u[3], ladd(u[2], 1))) is True and any(r[0] == u[1] for r in self.masks):
                    o = const_out(u[4], self.mask_at(u[1], u[2]))
                    if o is not None and self.eq0(lsub(u[3], ladd(u[2], 1))) is not True:
                        side.append(("s", u[1], ladd(u[2], 1), u[3], u[4]))
                        side.append(("l", o))
                        (b if side is a else a).append(y if side is a else x)
                        continue
            if x[0] == "s" and y[0] == "s" and x[1] == y[1]:
                if self.eq0(lsub(x[2], y[2])) is True:
                    c = self.ge0(lsub(y[3], x[3]))
                    d = self.ge0(lsub(x[3], y[3]))
                    hi = x[3] if c is True else y[3] if d is True else None
                    if hi is None:
                        return None
                    m = self.mask_range(x[1], x[2], hi)
                    if m == 0 or x[4] is y[4] or restrict(x[4], m) is restrict(y[4], m):
                        if not (c is True):
                            a.append(("s", x[1], hi, x[3], x[4]))
                        if not (d is True):
                            b.append(("s", y[1], hi, y[3], y[4]))
                        continue
            # empty ranges and ranges with a constant image
            done = False
            for u, side in ((x, a), (y, b)):
                if u[0] == "s":
                    if self.eq0(lsub(u[3], u[2])) is True:
                        side_other = b if side is a else a
                        side_other.append(y if side is a else x)
                        done = True
                        break
                    if self.eq0(lsub(u[3], ladd(u[2], 1))) is True:
                        m = self.mask_at(u[1], u[2])
                        o = const_out(u[4], m)
                        if o is not None:
                            side_other = b if side is a else a
                            side.append(("l", o))
                            side_other.append(y if side is a else x)
                            done = True
                            break
            if done:
                continue
            # single bytes built in several pieces
            r = self._fuse(x, a, y, b)
            if r is True:
                continue
            r2 = self._fuse(y, b, x, a)
            if r2 is True:
                continue
            if has_unk([x, y]) or has_unk(a) or has_unk(b):
                return None
            if r == "?" or r2 == "?" or self.partly([x, y] + a + b):
                return None
            return False
        rest = a or b
        for x in rest:
            if x[0] == "l":
                return None if has_unk(rest) else False
            if self.eq0(lsub(x[3], x[2])) is not True:
                return None if has_unk(rest) else False
        return True

    def partly(self, atoms):
        """Is a part of one of these symbols known to be equal to something that is not spelled out?"""
        names = {a[1] for a in atoms if a[0] == "s"}
        for u, v, st in self.order:
            if not st and not is_lit(u) and not is_lit(v) and (v, u, False) in self.order:
                for w in (u, v):
                    if len(w) > 1 or not (w[0][2] == 0 and w[0][3] == slen(w[0][1])):
                        if any(a[0] == "s" and a[1] in names for a in u + v):
                            return True
        return False

    def _fuse(self, x, xs, y, ys):
        """x covers a single byte (name, i): consume y, ys as long as they are functions of the
        same byte or literals until they make up the image of x."""
        if x[0] != "s" or self.eq0(lsub(x[3], ladd(x[2], 1))) is not True:
            return False
        m = self.mask_at(x[1], x[2])
        bs = mask_bytes(m)
        want = {b: x[4].t[b] or b"" for b in bs}
        took = []
        cur = y
        stack = list(ys)
        involved = False
        while True:
            if all(not v for v in want.values()):
                ys[:] = stack
                if cur is not None:
                    ys.append(cur)
                return True
            if cur is None:
                if not stack:
                    return "?" if involved else False
                cur = stack.pop()
            if cur[0] == "l":
                # take one byte at a time
                c = cur[1][:1]
                if not all(v[:1] == c for v in want.values()):
                    return "?" if involved else False
                want = {b: v[1:] for b, v in want.items()}
                cur = ("l", cur[1][1:]) if len(cur[1]) > 1 else None
                continue
            if cur[1] == x[1] and self.eq0(lsub(cur[2], x[2])) is True:
                one = self.eq0(lsub(cur[3], ladd(cur[2], 1)))
                if one is not True:
                    return "?"
                involved = True
                for b in bs:
                    o = cur[4].t[b] or b""
                    if not want[b].startswith(o):
                        return False
                want = {b: v[len(cur[4].t[b] or b""):] for b, v in want.items()}
                cur = None
                continue
            return "?" if involved else False
