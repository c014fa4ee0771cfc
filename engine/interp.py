"""Abstract interpreter for monomorphised MIR: paths are partitioned on questions whose answer
depends on the inputs, and joined at loop heads."""
import os, json, sys, hashlib, time, traceback
from seq import *
from facts import Facts, Split


class V:
    __slots__ = ()


class Agg(V):
    __slots__ = ("v", "fs", "_h")

    def __init__(self, v, fs):
        self.v = v
        self.fs = fs if type(fs) is tuple else tuple(fs)
        self._h = None

    def __eq__(self, o):
        return type(o) is Agg and self.v == o.v and self.fs == o.fs

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.v, self.fs))
        return self._h

    def __repr__(self):
        return "%s%s" % ("" if not self.v else "#%s" % (self.v,), self.fs)


class Ptr(V):
    """A pointer to a place; meta is None, ('sl', lo, hi) or ('vt', n)."""
    __slots__ = ("key", "path", "meta")

    def __init__(self, key, path=(), meta=None):
        self.key, self.path, self.meta = key, path, meta

    def __eq__(self, o):
        return type(o) is Ptr and (self.key, self.path, self.meta) == (o.key, o.path, o.meta)

    def __hash__(self):
        return hash((self.key, self.path, self.meta))

    def __repr__(self):
        return "&%s%s%s" % (self.key, self.path, self.meta or "")


class SV(V):
    """A shared `&str` / `&[u8]`: its content."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return type(o) is SV and self.s == o.s

    def __hash__(self):
        return hash(("SV", self.s))

    def __repr__(self):
        return "S<%s>" % show(self.s)


class Buf(V):
    """The content of a `String`, `Vec<u8>`, `[u8; N]`, `str` or `[u8]` place."""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return type(o) is Buf and self.s == o.s

    def __hash__(self):
        return hash(("Buf", self.s))

    def __repr__(self):
        return "B<%s>" % show(self.s)


class Op(V):
    """A library value which the analyser models."""
    __slots__ = ("k", "a")

    def __init__(self, k, *a):
        self.k, self.a = k, a

    def __eq__(self, o):
        return type(o) is Op and self.k == o.k and self.a == o.a

    def __hash__(self):
        return hash((self.k, self.a))

    def __repr__(self):
        return "%s%r" % (self.k, self.a)


class Fn(V):
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __eq__(self, o):
        return type(o) is Fn and self.f == o.f

    def __hash__(self):
        return hash(("fn", self.f))

    def __repr__(self):
        return "fn%d" % self.f


class Tab(V):
    """A function of one input byte."""
    __slots__ = ("name", "i", "t")

    def __init__(self, name, i, t):
        self.name, self.i, self.t = name, i, t

    def __eq__(self, o):
        return type(o) is Tab and (self.name, self.i, self.t) == (o.name, o.i, o.t)

    def __hash__(self):
        return hash((self.name, self.i, self.t))

    def __repr__(self):
        return "tab(%s[%r])" % (show_name(self.name), self.i)


class Unk(V):
    """A value the analyser knows nothing about."""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __eq__(self, o):
        return type(o) is Unk and self.why == o.why

    def __hash__(self):
        return hash(("unk", self.why))

    def __repr__(self):
        return "?%s" % (self.why,)


def thin(v):
    """A pointer to one element: ('at', text, offset) or a Ptr with meta ('el', index)."""
    return type(v) is Op and v.k == "at" or type(v) is Ptr and v.meta is not None and v.meta[0] == "el"


def at(v, n=0):
    """The pointer to the n-th element from the one that v points to, or None."""
    if type(v) is SV:
        return Op("at", v.s, n)
    if type(v) is Op and v.k == "at":
        return Op("at", v.a[0], ladd(v.a[1], n))
    if type(v) is Ptr and v.meta and v.meta[0] in ("sl", "el"):
        return Ptr(v.key, v.path, ("el", ladd(v.meta[1], n)))
    return None


def isptr(v):
    return type(v) in (Ptr, SV) or type(v) is Op and v.k == "at"


def bare(v):
    """The pointer inside NonNull, Unique, Box, ..."""
    while type(v) is Agg and v.fs:
        v = v.fs[0]
    return v


UNIT = Agg(0, ())
UNINIT = Unk("uninit")


def some(v):
    return Agg(1, (v,))


NONE = Agg(0, ())


def ok(v=UNIT):
    return Agg(0, (v,))


def err(v=UNIT):
    return Agg(1, (v,))


LESS, EQUAL, GREATER = Agg(0, ()), Agg(1, ()), Agg(2, ())


FALL = object()   # a model declines: look at the body


class Call:
    __slots__ = ("f", "args")

    def __init__(self, f, args):
        self.f, self.args = f, args


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


class Stop(Exception):
    """The path ends without a verdict."""

    def __init__(self, why, quiet=False):
        self.why = why
        self.quiet = quiet


class Frame:
    __slots__ = ("fn", "fid", "bb", "dest", "tgt", "loops", "span")

    def __init__(self, fn, fid, dest, tgt):
        self.fn, self.fid, self.dest, self.tgt = fn, fid, dest, tgt
        self.bb = 0
        self.loops = None
        self.span = None

    def copy(self):
        f = Frame(self.fn, self.fid, self.dest, self.tgt)
        f.bb = self.bb
        f.loops = dict(self.loops) if self.loops else None
        f.span = self.span
        return f


class State:
    __slots__ = ("mem", "frames", "facts", "nfid", "nsym", "g", "taint", "nsplit", "si", "wide", "unr")

    def __init__(self):
        self.mem = {}
        self.frames = []
        self.facts = Facts()
        self.nfid = 0
        self.nsym = 0
        self.g = {}        # monitor state: immutable values by name
        self.taint = ()    # reasons why the path may not be a real one
        self.nsplit = 0
        self.si = 0        # statement to resume at
        self.wide = False
        self.unr = 0       # iterations so far that depended on the inputs

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.facts = self.facts
        s.nfid, s.nsym = self.nfid, self.nsym
        s.g = dict(self.g)
        s.taint = self.taint
        s.nsplit = self.nsplit
        s.si = self.si
        s.wide = self.wide
        s.unr = self.unr
        return s

    def fresh(self, p="x"):
        self.nsym += 1
        return "%s#%d" % (p, self.nsym)

    def alloc(self, v):
        self.nfid += 1
        k = ("h", self.nfid)
        self.mem[k] = v
        return k


class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.types, self.fns, self.vtables, self.files = d["types"], d["fns"], d["vtables"], d["files"]
        self.roots = dict((n, i) for n, i in d["roots"])
        self.heads = {}
        self.nests = {}
        self.consts = {}
        self.cmem = {}
        self.live = {}
        for f in self.fns:
            f["def"] = f["def"].replace("witness::alloc::", "alloc::")

    def body(self, fn):
        return self.fns[fn].get("body")

    def loop_heads(self, fn):
        h = self.heads.get(fn)
        if h is None:
            h = set()
            blocks = self.fns[fn]["body"]["blocks"]
            color = {}
            stack = [(0, iter(succs(blocks[0][1])))]
            color[0] = 1
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in color:
                        color[s] = 1
                        stack.append((s, iter(succs(blocks[s][1]))))
                        break
                    elif color[s] == 1:
                        h.add(s)
                else:
                    color[b] = 2
                    stack.pop()
            self.heads[fn] = h
        return h

    def loop_nest(self, fn):
        """Reverse postorder of the blocks, and the blocks of each natural loop by head."""
        r = self.nests.get(fn)
        if r is None:
            blocks = self.fns[fn]["body"]["blocks"]
            preds = {}
            seen = {0}
            post = []
            back = []
            on = {0}
            stack = [(0, iter(succs(blocks[0][1])))]
            while stack:
                b, it = stack[-1]
                for s in it:
                    preds.setdefault(s, set()).add(b)
                    if s in on:
                        back.append((b, s))
                    if s not in seen:
                        seen.add(s)
                        on.add(s)
                        stack.append((s, iter(succs(blocks[s][1]))))
                        break
                else:
                    post.append(b)
                    on.discard(b)
                    stack.pop()
            pos = {b: i for i, b in enumerate(reversed(post))}
            loops = {}
            for b, h in back:
                body = loops.setdefault(h, {h})
                todo = [b]
                while todo:
                    x = todo.pop()
                    if x not in body:
                        body.add(x)
                        todo.extend(preds.get(x, ()))
            r = self.nests[fn] = (pos, loops)
        return r

    def const(self, ty, c):
        if isinstance(c, (int, str)):
            return int(c)
        if c is None:
            return UNIT
        if "agg" in c:
            t = self.types[ty]
            if t.get("name", "").startswith(("std::vec::Vec<", "std::string::String", "std::collections::")):
                # as at run time: a sequence of elements; a constant one is empty
                return Buf(()) if t["name"] in ("std::vec::Vec<u8>", "std::string::String") else Agg(0, ())
            fts = self.field_types(ty, c["v"])
            fs = tuple(self.const(fts[i] if i < len(fts) else None, x) for i, x in enumerate(c["agg"]))
            return Agg(c["v"], fs)
        if "str" in c:
            return SV(lit(bytes.fromhex(c["str"])))
        if "bytes" in c:
            if "?" in c["bytes"]:
                return Unk("uninit const")
            return Buf(lit(bytes.fromhex(c["bytes"])))
        if "arr" in c:
            et = self.types[ty].get("elem") if ty is not None else None
            return Agg(0, tuple(self.const(et, x) for x in c["arr"]))
        if "slice" in c:
            inner = c["slice"]
            if "arr" in inner:
                inner = Agg(0, tuple(self.const(c.get("ty"), x) for x in inner["arr"]))
            else:
                inner = self.const(None, inner)
            if isinstance(inner, Buf):
                return SV(inner.s)
            k = self.cconst(inner)
            return Ptr(k, (), ("sl", 0, len(inner.fs)))
        if "ref" in c:
            inner = self.const(c.get("ty"), c["ref"])
            if c.get("static"):
                # A static keeps what is stored in it: every path starts with its initial value.
                k = ("s", c["static"])
                self.cmem[k] = inner
            else:
                k = self.cconst(inner)
            return Ptr(k, (), ("vt", c["vt"]) if c.get("vt") is not None else None)
        if "fn" in c:
            return Fn(c["fn"])
        if "addr" in c:
            return Op("addr", int(c["addr"]))
        if "float" in c:
            return Op("float", int(c["float"]))
        return Unk("const " + str(c.get("unk")))

    def cconst(self, v):
        k = self.consts.get(v)
        if k is None:
            k = ("c", len(self.consts))
            self.consts[v] = k
            self.cmem[k] = v
        return k

    def field_types(self, ty, v=0):
        if ty is None:
            return []
        t = self.types[ty]
        k = t["k"]
        if k == "adt":
            vs = t["variants"]
            return [f[1] for f in vs[v]["fields"]] if v < len(vs) else []
        if k == "tuple":
            return t["elems"]
        if k == "closure":
            return self.types[t["upvars"]].get("elems", []) if "upvars" in t else []
        return []


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + [t[3]]
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[5]] if t[5] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def unknown(c):
    """Whether a condition is about something that the analysis has no value for."""
    if isinstance(c, tuple):
        if len(c) > 1 and c[0] == "unk":
            return True
        return any(unknown(x) for x in c)
    if type(c) is Lin:
        return any(unknown(k) for k, _ in c.t)
    return False


CALLS = os.environ.get("CALLS")


def scalar(v):
    """What transparent wrappers (Cell, MaybeUninit and the like) around a number hold."""
    while type(v) is Agg and v.v == 0 and (len(v.fs) == 1 or len(v.fs) == 2 and type(v.fs[0]) is Unk and v.fs[0] == UNINIT):
        v = v.fs[-1]
    return v


def bytes_of(v):
    """The bytes of an array of constants."""
    if type(v) is SV:
        return lit_of(v.s)
    if type(v) is Agg and all(isinstance(x, int) and 0 <= x < 256 for x in v.fs):
        return bytes(v.fs)
    return None


class Interp:
    def __init__(self, prog, models, unroll=1, wide=True, max_steps=3_000_000, max_states=60000, max_time=300):
        self.max_time = max_time
        self.p = prog
        self.models = models
        self.unroll = unroll
        self.trace = False
        self.delay = 2
        self.pend = {}
        self.wide = wide
        self.max_steps = max_steps
        self.max_states = max_states
        self.results = []     # obligations: dicts
        self.stats = {"steps": 0, "states": 0, "ends": 0, "bounded": 0, "panics": 0}
        self.visited = {}
        self.fns_seen = set()
        self.modelled = {}
        self.undecided = {}
        self.model_cache = {}
        self.invs = {}
        self.lemmas = set()

    # -- memory ---------------------------------------------------------------------------------
    def read(self, st, key, path):
        v = st.mem.get(key)
        if v is None:
            v = self.p.cmem.get(key, UNINIT)
        for i in path:
            v = self.proj(st, v, i)
        return v

    def proj(self, st, v, i):
        if type(v) is Agg:
            if isinstance(i, int) and i < len(v.fs):
                return v.fs[i]
            if type(i) is Tab:
                outs = []
                for b in range(256):
                    x = i.t[b]
                    if x is None or not (0 <= x < len(v.fs)) or not isinstance(v.fs[x], int):
                        outs.append(None)
                    else:
                        outs.append(v.fs[x])
                return Tab(i.name, i.i, tuple(outs))
            return Unk("field")
        if type(v) is Buf:
            return self.byte_at(st, v.s, i)
        if type(v) is Op and v.k in ("vec", "refcell", "arr"):
            if isinstance(i, int) and i < len(v.a[0]):
                return v.a[0][i]
            return Unk("elem")
        if type(v) is Op and v.k == "symlist" and isinstance(i, (int, Lin)):
            return self.models.elem(self, st, v, i)
        if type(v) is Unk:
            return v
        if type(v) is Op and v.k == "iter" and isinstance(i, int):
            return self.proj(st, self.open_iter(v), i)
        if i == 0 and isinstance(v, (int, Lin)):
            return v
        if type(v) is Op and v.k == "obj" and i == 0:
            return v  # a transparent wrapper seen as what it wraps
        return Unk("proj")

    def open_iter(self, v):
        """A slice iterator as its fields."""
        s, lo, hi, _ = v.a
        p, q = at(s, lo), at(s, hi)
        if p is None:
            return Unk("iterator")
        return Agg(0, (Agg(0, (p,)), q, UNIT))

    def write(self, st, key, path, val):
        if not path:
            st.mem[key] = val
            return
        old = st.mem.get(key)
        st.mem[key] = self.put(st, self.p.cmem.get(key, UNINIT) if old is None else old, path, val)

    def put(self, st, v, path, val):
        if not path:
            return val
        i = path[0]
        if type(v) is Agg:
            if not isinstance(i, int):
                return Unk("store")
            fs = list(v.fs)
            while len(fs) <= i:
                fs.append(UNINIT)
            fs[i] = self.put(st, fs[i], path[1:], val)
            return Agg(v.v, tuple(fs))
        if type(v) is Buf:
            b = self.byte_seq(val)
            if b is None:
                return Unk("store byte")
            n = length(v.s)
            return Buf(cat(self.slice(st, v.s, 0, i), b, self.slice(st, v.s, ladd(i, 1), n)))
        if type(v) is Op and v.k in ("vec", "arr"):
            es = list(v.a[0])
            if isinstance(i, int) and i < len(es):
                es[i] = self.put(st, es[i], path[1:], val)
                return Op(v.k, tuple(es))
            return Unk("store elem")
        if type(v) is Op and v.k == "iter":
            return self.put(st, self.open_iter(v), path, val)
        if type(v) is Unk:
            if v is UNINIT or v.why == "uninit":
                # partially initialised aggregate
                if isinstance(i, int):
                    return self.put(st, Agg(0, (UNINIT,) * (i + 1)), path, val)
            return v
        return Unk("put")

    # -- byte strings ---------------------------------------------------------------------------
    def byte_seq(self, v):
        """The one-byte string holding byte value v."""
        if isinstance(v, int):
            return lit(bytes([v & 255]))
        if type(v) is Tab:
            return norm([("s", v.name, v.i, ladd(v.i, 1), mkH([None if x is None or not 0 <= x < 256 else bytes([x]) for x in v.t]))])
        return None

    def byte_at(self, st, s, i):
        if type(i) is Tab:
            l = lit_of(s)
            if l is None:
                return Unk("byte_at tab")
            return Tab(i.name, i.i, tuple(None if x is None or not 0 <= x < len(l) else l[x] for x in i.t))
        if not isinstance(i, (int, Lin)):
            return Unk("byte_at")
        x = self.drop_take(st, s, i, 1)
        if x is None or not x:
            return Unk("byte_at")
        a = x[0]
        if a[0] == "l":
            return a[1][0]
        if not a[4].one:
            return Unk("byte_at")
        return Tab(a[1], a[2], tuple(None if o is None else o[0] for o in a[4].t))

    def drop_take(self, st, s, lo, n):
        """s[lo .. lo+n], or None when the position falls inside something that cannot be cut"""
        f = st.facts
        out = []
        atoms = list(s)
        idx = 0
        k = lo
        # drop k
        while True:
            if k == 0 or f.eq0(k) is True:
                break
            if idx >= len(atoms):
                return None
            a = atoms[idx]
            c = self.cut_image(f, a, k)
            if c:
                atoms[idx] = c[1]
                k = 0
                break
            L = alen(a)
            d = lsub(k, L)
            r = f.ge0(d)
            if r is None:
                if a[0] == "s" and a[4].one and idx == len(atoms) - 1:
                    r = False  # in range by the caller's check
                else:
                    r = f.decide(("ge", d))
            if r:
                k = d
                idx += 1
                continue
            c = self.cut(a, k)
            if c is None:
                return None
            atoms[idx] = c[1]
            k = 0
        k = n
        while True:
            if k == 0 or f.eq0(k) is True:
                break
            if idx >= len(atoms):
                return None
            a = atoms[idx]
            c = self.cut_image(f, a, k)
            if c:
                out.append(c[0])
                break
            L = alen(a)
            d = lsub(k, L)
            r = f.ge0(d)
            if r is None:
                if a[0] == "s" and a[4].one and idx == len(atoms) - 1:
                    r = False
                else:
                    r = f.decide(("ge", d))
            if r:
                out.append(a)
                k = d
                idx += 1
                continue
            c = self.cut(a, k)
            if c is None:
                return None
            out.append(c[0])
            break
        return norm(out)

    def cut_image(self, f, a, k):
        """The image of a single byte, cut in two at a fixed position within it."""
        if a[0] == "l" or a[4].one or not isinstance(k, int) or f.eq0(lsub(a[3], ladd(a[2], 1))) is not True:
            return None
        m = f.class_of(a)
        if any(len(x) < k for b, x in enumerate(a[4].t) if x is not None and m >> b & 1):
            return None
        t = [None if x is None or len(x) < k else x for x in a[4].t]
        return tuple(a[:4] + (mkH([None if x is None else x[c] for x in t]),) for c in (slice(0, k), slice(k, None)))

    def cut(self, a, k):
        if a[0] == "l":
            if not isinstance(k, int):
                return None
            return ("l", a[1][:k]), ("l", a[1][k:])
        _, n, lo, hi, h = a
        if not h.one:
            return None
        m = ladd(lo, k)
        return ("s", n, lo, m, h), ("s", n, m, hi, h)

    def slice(self, st, s, lo, hi):
        if type(lo) is Tab or type(hi) is Tab:
            return self.tab_slice(s, lo, hi)
        if lo == 0 and hi == length(s):
            return s
        if not isinstance(lo, (int, Lin)) or not isinstance(hi, (int, Lin)):
            return self.unk_seq(st, "slice")
        r = self.drop_take(st, s, lo, lsub(hi, lo))
        if r is None:
            return self.unk_seq(st, "slice")
        return r

    def tab_slice(self, s, lo, hi):
        l = lit_of(s)
        src = lo if type(lo) is Tab else hi
        if l is None:
            return whole(("unk", "slice"))
        t = []
        for b in range(256):
            x = lo.t[b] if type(lo) is Tab else lo
            y = hi.t[b] if type(hi) is Tab else hi
            t.append(None if x is None or y is None or not isinstance(x, int) or not isinstance(y, int) or not 0 <= x <= y <= len(l) else l[x:y])
        return norm([("s", src.name, src.i, ladd(src.i, 1), mkH(t))])

    def unk_seq(self, st, why):
        st.nsym += 1
        return whole(("unk", why, st.nsym))

    def content(self, st, v):
        """The bytes behind a &str / &[u8] / &[u8; N] / &String value."""
        if type(v) is SV:
            return v.s
        if type(v) is Buf:
            return v.s
        if type(v) is Op and v.k == "at":
            return self.slice(st, v.a[0], v.a[1], length(v.a[0]))
        if type(v) is Ptr:
            x = self.read(st, v.key, v.path)
            if v.meta and v.meta[0] == "el" and type(x) is Buf:
                return self.slice(st, x.s, v.meta[1], length(x.s))
            if v.meta and v.meta[0] == "sl":
                if type(x) is Buf:
                    return self.slice(st, x.s, v.meta[1], v.meta[2])
            if type(x) is Buf:
                return x.s
            if type(x) in (SV, Ptr):
                return self.content(st, x)
            if type(x) is Agg and len(x.fs) == 1:
                return self.content(st, x.fs[0])
        return self.unk_seq(st, "content")

    # -- places -----------------------------------------------------------------------------------
    def place(self, st, fr, pl):
        """-> ('loc', key, path, meta) | ('sv', seq) | ('val', value)"""
        key = (fr.fid, pl[0])
        cur = ("loc", key, (), None)
        for e in pl[1]:
            if e == "*":
                v = self.load(st, cur)
                cur = self.deref(st, v)
                continue
            k = e[0]
            if k == "f":
                if cur[0] == "loc":
                    cur = ("loc", cur[1], cur[2] + (e[1],), cur[3] if cur[3] and cur[3][0] in ("vt", "sl") else None)
                elif cur[0] == "val":
                    cur = ("val", self.proj(st, cur[1], e[1]))
                else:
                    cur = ("val", Unk("field of str"))
            elif k == "d":
                pass
            elif k == "i" or k == "ci":
                if k == "i":
                    i = st.mem.get((fr.fid, e[1]), UNINIT)
                else:
                    i = e[1]
                    if e[3]:
                        i = lsub(self.place_len(st, cur), e[1])
                if type(i) is Unk:
                    cur = ("val", Unk("index"))
                elif cur[0] == "loc":
                    if cur[3] and cur[3][0] == "sl":
                        if type(i) is Tab and cur[3][1] == 0:
                            pass
                        elif type(i) is Tab:
                            cur = ("val", Unk("index"))
                            continue
                        else:
                            i = ladd(i, cur[3][1])
                    cur = ("loc", cur[1], cur[2] + (i,), None)
                elif cur[0] == "sv":
                    cur = ("val", self.byte_at(st, cur[1], i))
                else:
                    cur = ("val", Unk("index"))
            elif k == "ss":
                n = self.place_len(st, cur)
                lo, hi = e[1], (lsub(n, e[2]) if e[3] else e[2])
                if cur[0] == "sv":
                    cur = ("sv", self.slice(st, cur[1], lo, hi))
                elif cur[0] == "loc":
                    b = cur[3][1] if cur[3] and cur[3][0] == "sl" else 0
                    cur = ("loc", cur[1], cur[2], ("sl", ladd(b, lo), ladd(b, hi)))
                else:
                    cur = ("val", Unk("subslice"))
        return cur

    def place_len(self, st, cur):
        if cur[0] == "sv":
            return length(cur[1])
        if cur[0] == "loc":
            if cur[3] and cur[3][0] == "sl":
                return lsub(cur[3][2], cur[3][1])
            v = self.read(st, cur[1], cur[2])
            if type(v) is Buf:
                return length(v.s)
            if type(v) is Agg:
                return len(v.fs)
            if type(v) is Op and v.k in ("vec", "arr"):
                return len(v.a[0])
        return 0

    def deref(self, st, v):
        if type(v) is Ptr:
            if v.meta and v.meta[0] == "el":
                return ("loc", v.key, v.path + (v.meta[1],), None)
            return ("loc", v.key, v.path, v.meta)
        if type(v) is SV:
            return ("sv", v.s)
        if type(v) is Op and v.k == "at":
            return ("val", self.byte_at(st, v.a[0], v.a[1]))
        if type(v) is Op and v.k == "box":
            return self.deref(st, v.a[0])
        if type(v) is Agg and len(v.fs) >= 1:
            # Box / Unique / NonNull wrappers
            x = v.fs[0]
            while type(x) is Agg and x.fs:
                x = x.fs[0]
            if isptr(x):
                return self.deref(st, x)
        if type(v) is Unk:
            return ("val", v)
        return ("val", Unk("deref %s" % type(v).__name__))

    def load(self, st, cur):
        if cur[0] == "loc":
            v = self.read(st, cur[1], cur[2])
            if cur[3] and cur[3][0] == "sl" and type(v) is Buf:
                return Buf(self.slice(st, v.s, cur[3][1], cur[3][2]))
            return v
        if cur[0] == "sv":
            return Buf(cur[1])
        return cur[1]

    def store(self, st, cur, val):
        if cur[0] == "loc":
            if cur[3] and cur[3][0] == "sl" and type(val) is Buf:
                old = self.read(st, cur[1], cur[2])
                if type(old) is Buf:
                    n = length(old.s)
                    val = Buf(cat(self.slice(st, old.s, 0, cur[3][1]), val.s, self.slice(st, old.s, cur[3][2], n)))
            if cur[1][0] == "c":
                raise Stop("store to constant")
            self.write(st, cur[1], cur[2], val)
        elif cur[0] == "val" and type(cur[1]) is Unk:
            self.do_taint(st, "store through unknown pointer")
        else:
            raise Stop("store to %s" % cur[0])

    def do_taint(self, st, why):
        if why not in st.taint:
            st.taint += (why,)

    def mkref(self, st, cur, mut):
        if cur[0] == "sv":
            return SV(cur[1])
        if cur[0] == "val":
            return Ptr(st.alloc(cur[1]))
        if not mut and cur[3] and cur[3][0] == "sl":
            v = self.read(st, cur[1], cur[2])
            if type(v) is Buf:
                return SV(self.slice(st, v.s, cur[3][1], cur[3][2]))
        return Ptr(cur[1], cur[2], cur[3])

    def operand(self, st, fr, o):
        k = o[0]
        if k == "c" or k == "m":
            pl = o[1]
            if not pl[1]:
                return st.mem.get((fr.fid, pl[0]), UNINIT)
            return self.load(st, self.place(st, fr, pl))
        if k == "k":
            return self.p.const(o[1], o[2])
        if k == "rc":
            return 1 if "Overflow" in o[1] else 0
        return Unk("operand")

    # -- arithmetic -------------------------------------------------------------------------------
    def ity(self, t):
        """(bits, signed) of an integer type"""
        if t is None:
            return (64, False)
        x = self.p.types[t]
        k = x["k"]
        if k == "int":
            return (x["bits"], True)
        if k == "uint":
            return (x["bits"], False)
        if k == "bool":
            return (1, False)
        if k == "char":
            return (32, False)
        return (64, False)

    @staticmethod
    def wrap(v, bits, signed):
        v &= (1 << bits) - 1
        if signed and v >> (bits - 1):
            v -= 1 << bits
        return v

    def binop(self, st, op, x, y, ty, checked=False):
        """The value, or (value, overflow) if checked."""
        if op == "Offset":
            x = bare(x)
            if isinstance(y, (int, Lin)):
                if isinstance(y, int) and y >> 63:
                    y -= 1 << 64
                r = at(x, y)
                if r is not None and (type(r) is not Op or self.pointee_u8(ty)):
                    return r
            return Unk("Offset")
        x, y = scalar(x), scalar(y)
        if thin(x) and thin(y) or type(x) is SV and thin(y) or thin(x) and type(y) is SV:
            a, b = at(x), at(y)
            if type(a) is type(b) and (a.a[0] == b.a[0] if type(a) is Op else (a.key, a.path) == (b.key, b.path)):
                x, y = (a.a[1], b.a[1]) if type(a) is Op else (a.meta[1], b.meta[1])
                ty = None
        bits, signed = self.ity(ty)
        if isinstance(x, int) and isinstance(y, int):
            if signed:
                # discriminants are kept as their bits
                x, y = self.wrap(x, bits, True), self.wrap(y, bits, True)
            r = self.arith(op, x, y, bits)
            if r is None:
                return (Unk(op), Unk(op)) if checked else Unk(op)
            if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
                return r
            w = self.wrap(r, bits, signed)
            if checked:
                return (w, int(w != r))
            return w
        if type(x) is Tab or type(y) is Tab:
            r = self.tab_bin(st, op, x, y, bits, signed, checked)
            if r is not None:
                return r
        if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
            d = lsub(x, y)
            for v, w in ((x, y), (y, x)):
                if isinstance(v, int) and v >= 1 << 62 and all(isinstance(n, tuple) and n[0] == "len" for n, _ in w.t):
                    # memory is not that large
                    self.bound(st, lsub((1 << 62) - 1, w), 0)
            f = st.facts
            if op == "Eq":
                return int(f.decide(("eq", d)))
            if op == "Ne":
                return int(not f.decide(("eq", d)))
            if op == "Lt":
                return int(not f.decide(("ge", d)))
            if op == "Ge":
                return int(f.decide(("ge", d)))
            if op == "Gt":
                return int(f.decide(("ge", lsub(d, 1))))
            if op == "Le":
                return int(not f.decide(("ge", lsub(d, 1))))
            if op == "Cmp":
                if f.decide(("ge", lsub(d, 1))):
                    return GREATER
                return EQUAL if f.decide(("eq", d)) else LESS
            if op.startswith("Add"):
                r = ladd(x, y)
                if self.wide_number(st, r, bits):
                    return (lsub(r, 1 << bits), 1) if checked else lsub(r, 1 << bits)
                return (r, 0) if checked else r
            if op.startswith("Sub"):
                if checked or not signed:
                    if not f.decide(("ge", d)) and not signed:
                        d = ladd(d, 1 << bits) if bits else Unk("wrapping sub")
                        return (d, 1) if checked else d
                return (d, 0) if checked else d
            if op.startswith("Mul"):
                if isinstance(y, int):
                    r = lscale(x, y)
                elif isinstance(x, int):
                    r = lscale(y, x)
                else:
                    r = Unk("mul")
                return (r, 0) if checked else r
            if op in ("Shl", "ShlUnchecked") and isinstance(y, int):
                return lscale(x, 1 << y)
            if op == "BitAnd" and isinstance(y, int) and y == (1 << bits) - 1:
                return x
            r = Unk(op)
            if isinstance(x, int) and op in ("BitAnd", "BitOr"):
                x, y = y, x
            if isinstance(y, int) and y >= 0 and not signed:
                # a function of x, with linear bounds
                op = op.replace("Unchecked", "")
                if op == "Shr":
                    op, y = "Div", 1 << y
                if op in ("Div", "Rem") and y > 0:
                    q = sym(("fn", "Div", x, y))
                    r = lsub(x, lscale(q, y))
                    self.bound(st, r, 0, y - 1)
                    r = q if op == "Div" else r
                elif op == "BitAnd":
                    r = sym(("fn", op, x, y))
                    self.bound(st, r, 0, y)
                    self.bound(st, lsub(x, r), 0)
                elif op == "BitOr":
                    r = sym(("fn", op, x, y))
                    self.bound(st, lsub(r, x), 0, y)
                    self.bound(st, r, y)
            return (r, 0) if checked else r
        if op in ("Eq", "Ne"):
            e = self.veq(x, y)
            if e is not None:
                return int(e if op == "Eq" else not e)
        r = Unk(op)
        return (r, Unk("overflow")) if checked else r

    def bound(self, st, x, lo, hi=None):
        for c in (lsub(x, lo), None if hi is None else lsub(hi, x)):
            if c is not None:
                g = st.facts.assume(("ge", c), True)
                if g is None:
                    raise Stop("bounds of a number")
                st.facts = g

    def wide_number(self, st, r, bits):
        """Whether a sum of numbers that are not lengths is too large for its type."""
        if not bits or not isinstance(r, Lin) or not any(isinstance(n, str) and n.startswith("n:") for n, _ in r.t):
            return False
        for n, _ in r.t:
            if isinstance(n, str) and n.startswith("n:"):
                self.bound(st, sym(n), 0, (1 << (100 if "now_" in n else 64)) - 1)
        return st.facts.decide(("ge", lsub(r, 1 << bits)))

    def pointee_u8(self, ty):
        t = self.p.types[ty] if ty is not None else None
        if t is None or t["k"] not in ("ptr", "ref"):
            return False
        t = self.p.types[t["to"]]
        return t["k"] in ("uint", "int") and t["bits"] == 8

    def veq(self, x, y):
        """Equality of pointers / function pointers / addresses"""
        if type(x) is Fn and type(y) is Fn:
            return x == y
        if type(x) is Ptr and type(y) is Ptr and x.meta is None and y.meta is None:
            return x == y
        if isptr(x) and (type(y) is Op and y.k == "addr" and y.a[0] == 0 or type(y) is int and y == 0):
            return False
        return None

    @staticmethod
    def arith(op, x, y, bits):
        if op in ("Add", "AddUnchecked", "AddWithOverflow"):
            return x + y
        if op in ("Sub", "SubUnchecked", "SubWithOverflow"):
            return x - y
        if op in ("Mul", "MulUnchecked", "MulWithOverflow"):
            return x * y
        if op in ("Div", "Rem"):
            if y == 0:
                return None
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            return q if op == "Div" else x - q * y
        if op == "BitAnd":
            return x & y
        if op == "BitOr":
            return x | y
        if op == "BitXor":
            return x ^ y
        if op in ("Shl", "ShlUnchecked"):
            return x << (y % bits)
        if op in ("Shr", "ShrUnchecked"):
            return x >> (y % bits)
        if op == "Eq":
            return int(x == y)
        if op == "Ne":
            return int(x != y)
        if op == "Lt":
            return int(x < y)
        if op == "Le":
            return int(x <= y)
        if op == "Gt":
            return int(x > y)
        if op == "Ge":
            return int(x >= y)
        if op == "Cmp":
            return LESS if x < y else GREATER if x > y else EQUAL
        return None

    def tab_bin(self, st, op, x, y, bits, signed, checked):
        src = x if type(x) is Tab else y
        if type(x) is Tab and type(y) is Tab and (x.name != y.name or st.facts.eq0(lsub(x.i, y.i)) is not True):
            # two different input bytes: compare by classes when one-valued
            return None
        if not isinstance(x, (int, Tab)) or not isinstance(y, (int, Tab)):
            return None
        m = st.facts.mask_at(src.name, src.i)
        t, o = [], []
        cmpop = op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge")
        for b in range(256):
            a = x.t[b] if type(x) is Tab else x
            c = y.t[b] if type(y) is Tab else y
            if a is None or c is None or not m >> b & 1:
                t.append(None)
                o.append(None)
                continue
            r = self.arith(op, a, c, bits)
            if not isinstance(r, int):
                if op == "Cmp":
                    return None
                t.append(None)
                o.append(None)
                continue
            w = r if cmpop else self.wrap(r, bits, signed)
            t.append(w)
            o.append(int(w != r))
        v = self.mktab(src, t)
        if checked:
            return (v, self.mktab(src, o))
        return v

    @staticmethod
    def mktab(src, t):
        vs = {x for x in t if x is not None}
        if len(vs) == 1:
            return vs.pop()
        return Tab(src.name, src.i, tuple(t))

    def concretise(self, st, v, values):
        """Which of the given ints v is, splitting the path; None if none of them."""
        if isinstance(v, int):
            return v if v in values else None
        if type(v) is Tab:
            m = st.facts.mask_at(v.name, v.i)
            for w in values:
                k = 0
                for b in range(256):
                    if v.t[b] == w:
                        k |= 1 << b
                if m & k == 0:
                    continue
                if st.facts.decide(("in", v.name, v.i, k)):
                    return w
            return None
        if isinstance(v, Lin):
            for w in values:
                if st.facts.decide(("eq", lsub(v, w))):
                    return w
            return None
        self.do_taint(st, "branch on unknown value (%s)" % (v.why if type(v) is Unk else type(v).__name__,))
        base = st.nsym
        for n, w in enumerate(values):
            if st.facts.decide(("nd", ("br", base, n))):
                st.nsym += 1
                return w
        st.nsym += 1
        return None

    def nd(self, st, key):
        return st.facts.decide(("nd", key))

    # -- rvalues ----------------------------------------------------------------------------------
    def rvalue(self, st, fr, r):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            return self.mkref(st, self.place(st, fr, r[2]), r[1])
        if k == "reborrow":
            return self.mkref(st, self.place(st, fr, r[2]), r[1])
        if k == "addr":
            return self.mkref(st, self.place(st, fr, r[2]), "Mut" in r[1])
        if k == "bin" or k == "cbin":
            x = self.operand(st, fr, r[2])
            y = self.operand(st, fr, r[3])
            checked = k == "cbin" or r[1].endswith("WithOverflow")
            v = self.binop(st, r[1], x, y, r[4], checked)
            if checked:
                return Agg(0, v)
            return v
        if k == "un":
            return self.unop(st, r[1], self.operand(st, fr, r[2]), r[3])
        if k == "discr":
            v = self.load(st, self.place(st, fr, r[1]))
            return self.discr(v, r[2])
        if k == "len":
            return self.place_len(st, self.place(st, fr, r[1]))
        if k == "agg":
            kind = r[1]
            vs = [self.operand(st, fr, o) for o in r[2]]
            if kind[0] == "array":
                t = self.p.types[kind[1]]
                if t["k"] == "uint" and t["bits"] == 8:
                    return self.bytes_of(st, vs)
                return Agg(0, tuple(vs))
            if kind[0] == "adt":
                if kind[3] is not None:  # union
                    return vs[0] if False else Agg(0, (UNINIT,) * kind[3] + (vs[0],))
                d = self.p.types[kind[1]].get("def")
                if d == "std::vec::Vec" and len(vs) == 2 and vs[1] == 0:
                    e = self.p.types[self.p.types[kind[1]]["args"][0]]
                    return Buf(()) if e["k"] == "uint" and e["bits"] == 8 else Agg(0, ())
                if d == "std::string::String" and len(vs) == 1 and type(vs[0]) is Buf:
                    return vs[0]
                return Agg(kind[2], tuple(vs))
            if kind[0] == "rawptr":
                return self.raw_parts(st, vs[0], vs[1])
            if kind[0] == "other":
                return Unk("aggregate")
            return Agg(0, tuple(vs))
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fr, r[2]), r[3], r[4], r[5])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            if r[2] is None:
                return Unk("repeat")
            if isinstance(v, int) and 0 <= v < 256 and self.op_is_u8(r[1], fr):
                return Buf(lit(bytes([v]) * r[2]))
            if type(v) is Unk and self.op_is_u8(r[1], fr):
                return v
            return Agg(0, (v,) * r[2])
        if k == "tls":
            return Unk("thread local") if r[1] is None else self.p.const(None, r[1])
        return Unk(k)

    def op_is_u8(self, o, fr):
        t = None
        if o[0] == "k":
            t = o[1]
        elif o[0] in "cm" and not o[1][1]:
            t = self.p.fns[fr.fn]["body"]["locals"][o[1][0]]
        if t is None:
            return False
        x = self.p.types[t]
        return x["k"] == "uint" and x["bits"] == 8

    def bytes_of(self, st, vs):
        out = []
        for v in vs:
            b = self.byte_seq(v)
            if b is None:
                return Unk("array of unknown bytes")
            out.append(b)
        return Buf(cat(*out))

    def raw_parts(self, st, p, meta):
        p = bare(p)
        if thin(p) and isinstance(meta, (int, Lin)):
            if type(p) is Op:
                return SV(self.slice(st, p.a[0], p.a[1], ladd(p.a[1], meta)))
            return Ptr(p.key, p.path, ("sl", p.meta[1], ladd(p.meta[1], meta)))
        if type(p) is Ptr:
            if isinstance(meta, (int, Lin)):
                lo = 0
                q = p
                if q.meta and q.meta[0] == "sl":
                    lo = q.meta[1]
                return Ptr(q.key, q.path, ("sl", lo, ladd(lo, meta)))
            return p
        if type(p) is SV and isinstance(meta, (int, Lin)):
            return SV(self.slice(st, p.s, 0, meta))
        return Unk("raw parts")

    def unop(self, st, op, v, ty):
        bits, signed = self.ity(ty)
        if op == "Not":
            if isinstance(v, int):
                return self.wrap(~v, bits, signed) if bits > 1 else 1 - v
            if type(v) is Tab:
                return self.mktab(v, [None if x is None else (self.wrap(~x, bits, signed) if bits > 1 else 1 - x) for x in v.t])
        if op == "Neg":
            if isinstance(v, int):
                return self.wrap(-v, bits, signed)
            if isinstance(v, Lin):
                return lscale(v, -1)
        if op == "PtrMetadata":
            if type(v) is SV:
                return length(v.s)
            if type(v) is Ptr and v.meta:
                if v.meta[0] == "sl":
                    return lsub(v.meta[2], v.meta[1])
                return Op("vtable", v.meta[1])
            if type(v) is Ptr:
                x = self.read(st, v.key, v.path)
                if type(x) is Buf:
                    return length(x.s)
                return UNIT
        return Unk(op)

    def discr(self, v, ty):
        if type(v) is Agg:
            if ty is not None:
                t = self.p.types[ty]
                if t["k"] == "adt" and v.v < len(t["variants"]):
                    d = t["variants"][v.v]["discr"]
                    return d
            return v.v
        if type(v) is Unk:
            return v
        return Unk("discr %s" % type(v).__name__)

    def cast(self, st, kind, v, to, frm, extra):
        if kind.startswith("PointerCoercion"):
            if "Unsize" in kind:
                return self.unsize(st, v, extra, to)
            if extra is not None:
                return Fn(extra)
            return v
        if kind == "IntToInt":
            fb, fs = self.ity(frm)
            b, s = self.ity(to)
            if isinstance(v, int):
                return self.wrap(v, b, s)
            if type(v) is Tab:
                return self.mktab(v, [None if x is None else self.wrap(x, b, s) for x in v.t])
            if isinstance(v, Lin):
                return v if b >= fb else Unk("truncation")
            if type(v) is Agg and not v.fs:  # enum discriminant cast
                return self.discr(v, frm)
            return Unk("cast")
        if kind == "BoxDerefTransmute":
            while type(v) is Agg and v.fs:
                v = v.fs[0]
            return v
        if kind in ("PtrToPtr", "Transmute") and frm != to:
            self.models.on_cast(self, st, frm, to)
        if kind in ("PtrToPtr", "Subtype", "FnPtrToPtr"):
            return self.ptr_cast(st, v, to, frm)
        if kind.startswith("Transmute"):
            return self.transmute(st, v, frm, to)
        if kind in ("PointerExposeAddress", "PointerExposeProvenance", "PointerWithExposedProvenance"):
            return v
        return Unk("cast " + kind)

    def ptr_cast(self, st, v, to, frm=None):
        if type(v) is Agg:
            return v
        tt = self.p.types[to]
        if tt["k"] not in ("ptr", "ref") or not isptr(v):
            return v
        t = self.p.types[tt["to"]]
        if t["k"] in ("slice", "str", "dyn"):
            return v
        ft = self.p.types[frm] if frm is not None else {"k": "?"}
        ft = self.p.types[ft["to"]] if ft["k"] in ("ptr", "ref") else {"k": "?"}
        if t["k"] == "array":
            e = self.p.types[t["elem"]]
            if thin(v) and isinstance(t.get("len"), int) and ft["k"] == e["k"] and ft == e:
                return self.raw_parts(st, v, t["len"])
            return v
        if ft["k"] in ("slice", "str", "array"):
            e = {"k": "uint", "bits": 8} if ft["k"] == "str" else self.p.types[ft["elem"]]
            if e["k"] == t["k"] and e.get("bits") == t.get("bits") and e.get("name") == t.get("name") or ft["k"] == "str" and t["k"] == "uint" and t["bits"] == 8:
                # a pointer to the first element
                if ft["k"] == "array" and type(v) is Ptr and v.meta is None:
                    return Ptr(v.key, v.path, ("el", 0))
                return at(v)
            return v
        if type(v) is Ptr and v.meta is None and ft["k"] == "adt" and frm is not None:
            # from a wrapper to what it holds
            x, n = self.p.types[frm]["to"], 0
            while x != tt["to"]:
                xt = self.p.types[x]
                if xt["k"] != "adt" or xt["ak"] != "struct" or len(xt["variants"][0]["fields"]) != 1:
                    return v
                x, n = xt["variants"][0]["fields"][0][1], n + 1
            return Ptr(v.key, v.path + (0,) * n) if n else v
        if thin(v) and ft["k"] in ("uint", "int") and t["k"] in ("uint", "int") and ft["bits"] != t["bits"]:
            return Unk("elements of another size")
        return v

    def transmute(self, st, v, frm, to):
        tt = self.p.types[to]
        ft = self.p.types[frm] if frm is not None else {"k": "?"}
        if tt["k"] == "array" and ft["k"] in ("int", "uint"):
            if not isinstance(v, int) or self.p.types[tt["elem"]] != {**self.p.types[tt["elem"]], "k": "uint", "bits": 8}:
                return Unk("bytes of a number")
            return Agg(0, tuple((v & (1 << ft["bits"]) - 1).to_bytes(ft["bits"] // 8, "little")))
        if ft["k"] == "array" and tt["k"] in ("int", "uint"):
            b = bytes_of(v)
            if b is None or len(b) * 8 != tt["bits"]:
                return Unk("number of bytes")
            return int.from_bytes(b, "little", signed=tt["k"] == "int")
        if isinstance(v, int) and tt["k"] == "adt":
            if tt["ak"] == "enum":
                for i, x in enumerate(tt["variants"]):
                    if x["discr"] == v or (v < 0 and x["discr"] == v & 255):
                        return Agg(i, ())
                return Unk("transmute")
            fs = tt["variants"][0]["fields"]
            if len(fs) >= 1:
                return Agg(0, (self.transmute(st, v, frm, fs[0][1]),) )
        if isinstance(v, Lin) and tt["k"] == "adt" and tt["ak"] == "struct":
            fs = tt["variants"][0]["fields"]
            if len(fs) == 1:
                return Agg(0, (self.transmute(st, v, frm, fs[0][1]),))
        if type(v) is Agg and tt["k"] in ("int", "uint", "char", "bool"):
            if ft["k"] == "adt" and ft["ak"] == "enum" and not v.fs:
                return self.discr(v, frm)
            x = v
            while type(x) is Agg and len(x.fs) >= 1:
                x = x.fs[1] if len(x.fs) == 2 and type(x.fs[0]) is Unk else x.fs[0]
            if isinstance(x, (int, Lin, Tab)):
                return x
            return Unk("transmute")
        if type(v) is Agg and tt["k"] in ("ref", "ptr"):
            x = v
            while type(x) is Agg and len(x.fs) >= 1:
                x = x.fs[0]
            if isptr(x):
                return x
            return Unk("transmute")
        if isptr(v) and tt["k"] == "adt" and tt["ak"] == "struct" and len(tt["variants"][0]["fields"]) >= 1:
            return Agg(0, (self.transmute(st, v, frm, tt["variants"][0]["fields"][0][1]),))
        if isinstance(v, int) and tt["k"] == "pat":
            return v
        return v

    def unsize(self, st, v, extra, to):
        if type(v) is Agg and extra:  # Box etc.
            return Agg(v.v, (self.unsize(st, v.fs[0], extra, to),) + v.fs[1:])
        if not extra:
            return v
        if extra[0] == "vt":
            if type(v) is Ptr:
                return Ptr(v.key, v.path, ("vt", extra[1]))
            if type(v) is SV:
                return Ptr(st.alloc(Buf(v.s)), (), ("vt", extra[1]))
            return v
        if extra[0] == "slice":
            if type(v) is Ptr:
                x = self.read(st, v.key, v.path)
                if type(x) is Buf:
                    t = self.p.types[to]
                    if not t.get("mut"):
                        return SV(x.s)
                return Ptr(v.key, v.path, ("sl", 0, extra[1]))
            return v
        return v

    # -- execution --------------------------------------------------------------------------------
    def overtime(self):
        # processor time, so that a busy machine changes nothing until it is far too slow
        return time.process_time() - self.c0 > self.max_time or time.time() - self.t0 > 2 * self.max_time

    def run(self, entry):
        st = State()
        self.entry = entry
        BASEMASK.clear()
        self.dfs = "e_c02" in entry
        fn = self.p.roots[entry]
        self.push(st, fn, [], None, None)
        self.t0, self.c0 = time.time(), time.process_time()
        work = [st]
        while work or self.pend:
            if not work:
                work.append(self.resume())
            if self.stats["steps"] > self.max_steps or self.stats["states"] > self.max_states or self.overtime():
                self.note("limit", "step limit reached in " + entry)
                break
            s = work.pop()
            self.stats["states"] += 1
            try:
                self.go(s, work)
            except Stop as e:
                if not e.quiet:
                    self.note("stop", e.why, s)
            except (KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError, RecursionError) as e:
                if self.trace:
                    traceback.print_exc()
                import sys
                tb = sys.exc_info()[2]
                while tb.tb_next:
                    tb = tb.tb_next
                self.note("error", "%s: %s at %s:%d" % (type(e).__name__, str(e)[:200], tb.tb_frame.f_code.co_filename.split("/")[-1], tb.tb_lineno), s)

    def note(self, kind, why, st=None):
        k = (kind, why)
        if k not in self.undecided:
            self.undecided[k] = self.where(st) if st else ""

    def where(self, st):
        out = []
        for f in reversed(st.frames):
            n = self.p.fns[f.fn]["name"]
            if f.span:
                out.append("%s (%s:%d)" % (n, self.p.files[f.span[0]], f.span[1]))
        return out

    def push(self, st, fn, args, dest, tgt):
        f = self.p.fns[fn]
        b = f["body"]
        self.fns_seen.add(fn)
        st.nfid += 1
        fr = Frame(fn, st.nfid, dest, tgt)
        argc = b["argc"]
        if len(args) != argc or (f.get("closure") and b["spread"] is None and len(args) == 2):
            if len(args) == 2 and type(args[1]) is Agg and len(args[1].fs) == argc - 1:
                args = [args[0]] + list(args[1].fs)
            elif len(args) == 2 and argc == 1 and type(args[1]) is Agg:
                args = [args[0]]
            elif len(args) <= 1 and argc == 2 and "as std::ops::FnOnce" in f["name"] and "{closure" in f["name"]:
                # a closure without environment, called through a function pointer
                args = [Agg(0, ()), Agg(0, tuple(args))]
            elif len(args) > argc and b["spread"] is not None:
                sp = b["spread"] - 1
                args = list(args[:sp]) + [Agg(0, tuple(args[sp:]))]
        if len(args) != argc:
            raise Stop("argument count of %s" % f["name"])
        for i, a in enumerate(args):
            st.mem[(fr.fid, i + 1)] = a
        if len(st.frames) > 120:
            raise Stop("recursion")
        st.frames.append(fr)
        st.si = 0

    def go(self, st, work):
        """Runs st until its path ends, pushing other parts of the partition on work."""
        while True:
            fr = st.frames[-1]
            blocks = self.p.fns[fr.fn]["body"]["blocks"]
            stmts, term = blocks[fr.bb]
            n = len(stmts)
            save = (st.nfid, st.nsym)
            try:
                while st.si < n:
                    self.stats["steps"] += 1
                    x = stmts[st.si]
                    save = (st.nfid, st.nsym)
                    self.stmt(st, fr, x)
                    st.si += 1
                self.stats["steps"] += 1
                save = (st.nfid, st.nsym)
                r = self.term(st, fr, term)
                if r is not None:
                    if r == "end":
                        self.stats["ends"] += 1
                        self.at_end(st)
                        return
                    if r == "stop":
                        return
                if self.stats["steps"] > self.max_steps or (not self.stats["steps"] & 63 and self.overtime()):
                    raise Stop("step limit")
            except Split as e:
                st.nfid, st.nsym = save
                a = st.facts.assume(e.cond, True)
                b = st.facts.assume(e.cond, False)
                st.nsplit += 1
                if unknown(e.cond):
                    self.do_taint(st, "branch on unknown text")
                for f, v in ((a, True), (b, False)):
                    if f is not None and f.query(e.cond) is not v:
                        raise Stop("no progress on %r" % (e.cond,))
                if a is None and b is None:
                    return
                if a is not None and b is not None:
                    if (a is st.facts) or (b is st.facts):
                        raise Stop("no progress on %r" % (e.cond,))
                    o = st.copy()
                    o.facts = b
                    work.append(o)
                    st.facts = a
                else:
                    # one side contradictory: keep the other, remembering the answer
                    f = a if a is not None else b
                    if f is st.facts:
                        raise Stop("no progress on %r" % (e.cond,))
                    st.facts = f
            except Panic as e:
                self.stats["panics"] += 1
                self.models.on_panic(self, st, e.msg)
                return

    def at_end(self, st):
        self.models.on_end(self, st)

    def stmt(self, st, fr, x):
        k = x[0]
        if k == "=":
            fr.span = x[3]
            v = self.rvalue(st, fr, x[2])
            pl = x[1]
            if not pl[1]:
                st.mem[(fr.fid, pl[0])] = v
            else:
                self.assign(st, fr, pl, v)
        elif k == "dead":
            st.mem.pop((fr.fid, x[1]), None)
        elif k == "sd":
            cur = self.place(st, fr, x[1])
            v = self.load(st, cur)
            fs = v.fs if type(v) is Agg else ()
            self.store(st, cur, Agg(x[2], fs))
        elif k == "copy":
            src = self.operand(st, fr, x[1])
            dst = self.operand(st, fr, x[2])
            cnt = self.operand(st, fr, x[3])
            self.models.copy(self, st, src, dst, cnt)

    def assign(self, st, fr, pl, v):
        self.store(st, self.place(st, fr, pl), v)

    def jump(self, st, fr, bb):
        fr.bb = bb
        st.si = 0
        if bb in self.p.loop_heads(fr.fn):
            return self.at_head(st, fr, bb)
        return None

    def live_locals(self, fn, bb, top):
        """The locals that may still be read when control is at the start of bb (the target of the
        pending call for suspended frames), or None if unknown."""
        key = (fn, bb, top)
        r = self.p.live.get(key, 0)
        if r != 0:
            return r
        ins, outs, always = self.liveness(fn)
        if top:
            r = ins[bb] | always
        else:
            r = outs[bb] | always
        self.p.live[key] = r
        return r

    def liveness(self, fn):
        c = self.p.__dict__.setdefault("_lv", {})
        if fn in c:
            return c[fn]
        blocks = self.p.fns[fn]["body"]["blocks"]
        use = [set() for _ in blocks]
        dfn = [set() for _ in blocks]
        always = {0}

        def rd(s, pl):
            s.add(pl[0])
            for e in pl[1]:
                if e != "*" and e[0] == "i":
                    s.add(e[1])

        def rop(s, o):
            if o[0] in ("c", "m"):
                rd(s, o[1])

        def rrv(s, r):
            k = r[0]
            if k in ("use", "repeat"):
                rop(s, r[1])
            elif k in ("ref", "reborrow", "addr"):
                if not any(e == "*" for e in r[2][1]):
                    always.add(r[2][0])
                rd(s, r[2])
            elif k in ("bin", "cbin"):
                rop(s, r[2])
                rop(s, r[3])
            elif k in ("un", "cast"):
                rop(s, r[2])
            elif k in ("discr", "len"):
                rd(s, r[1])
            elif k == "agg":
                for o in r[2]:
                    rop(s, o)
        for i, (st, t) in enumerate(blocks):
            u, d = use[i], dfn[i]

            def add(s):
                for x in s:
                    if x not in d:
                        u.add(x)
            for x in st:
                s = set()
                if x[0] == "=":
                    rrv(s, x[2])
                    if x[1][1]:
                        rd(s, x[1])
                    add(s)
                    if not x[1][1]:
                        d.add(x[1][0])
                elif x[0] == "sd":
                    rd(s, x[1])
                    add(s)
                elif x[0] == "copy":
                    for o in x[1:]:
                        rop(s, o)
                    add(s)
                elif x[0] in ("sl", "dead"):
                    d.add(x[1])
            s = set()
            k = t[0]
            if k == "switch" or k == "assert":
                rop(s, t[1])
            elif k == "drop":
                rd(s, t[1])
            elif k == "call":
                if t[2]:
                    rop(s, t[2])
                for o in t[3]:
                    rop(s, o)
                if t[4][1]:
                    rd(s, t[4])
            elif k == "return":
                s.add(0)
            add(s)
            if k == "call" and not t[4][1]:
                d.add(t[4][0])
        ins = [set(u) for u in use]
        outs = [set() for _ in blocks]
        chg = True
        while chg:
            chg = False
            for i in range(len(blocks) - 1, -1, -1):
                o = set()
                for q in succs(blocks[i][1]):
                    o |= ins[q]
                n = use[i] | (o - dfn[i])
                if o != outs[i] or n != ins[i]:
                    outs[i], ins[i] = o, n
                    chg = True
        c[fn] = (ins, outs, always)
        return c[fn]

    def at_join(self, st, point):
        """Join with the states seen at this point."""
        from merge import Canon, subsumed, join, drop_dead
        st.facts = st.facts.copy().tidy()
        c = Canon(self, st).run()
        drop_dead(st.facts, c)
        grp = self.invs.get((point, c.base))
        if grp is None:
            grp = self.invs[(point, c.base)] = {"wid": set(), "vals": {}, "by": {}}
        wid, vals = grp["wid"], grp["vals"]
        for i, h in enumerate(c.holes):
            if h[0] == "n" and i not in wid:
                vs = vals.setdefault(i, set())
                vs.add(h[1])
                if len(vs) > self.delay or (len(vs) > 1 and any(isinstance(x, Lin) for x in vs)):
                    wid.add(i)
        key = c.fixed(wid)
        if point[0] == "head" and self.p.fns[point[1]]["name"] == "witness::shims::fmt_write":
            # a loop over the pieces of a format string, which are known: states are only
            # shared, never generalised
            key = (tuple([h[1] for h in c.holes]),)
            k = 0
            while (key, k) in grp["by"]:
                if subsumed(grp["by"][(key, k)][0], c):
                    self.stats["joined"] = self.stats.get("joined", 0) + 1
                    return "stop"
                k += 1
            key = (key, k)
        inv = grp["by"].get(key)
        if self.trace:
            print("JOIN", point, self.p.fns[point[1]]["name"] if point[0] == "head" else "", hash((c.base, key)) & 0xffff, [show(h[1]) if h[0] == "s" else h[1] for h in c.holes])
        if inv is None:
            grp["by"][key] = (c, 0)
            # keep a copy: st goes on
            c.st = st.copy()
            if self.dfs:
                return None
            self.pend[(point, c.base, key)] = self.rank(st)
            return "stop"
        inv, n = inv
        if subsumed(inv, c):
            self.stats["joined"] = self.stats.get("joined", 0) + 1
            return "stop"
        if n > 12:
            if self.trace:
                import merge
                print("   WHY", merge.WHY)
            raise Stop("no fixpoint")
        g = join(self, inv, c, n > 1)
        c2 = Canon(self, g).run()
        drop_dead(g.facts, c2)
        if self.trace:
            print("   inv", [show(h[1]) if h[0] == "s" else h[1] for h in inv.holes])
            print("   ->", [show(h[1]) if h[0] == "s" else h[1] for h in c2.holes], g.facts.lin, g.facts.order, [x[:3] for x in g.facts.masks])
        if c2.base != c.base or len(c2.holes) != len(inv.holes):
            if self.trace:
                from merge import diff
                print("   shape", diff(c2.base, c.base), len(c2.holes), len(inv.holes))
            raise Stop("join changed the shape of the state")
        if not subsumed(c2, c):
            if self.trace:
                import merge
                print("   WHY", merge.WHY, [show(h[1]) if h[0] == "s" else h[1] for h in c2.holes], g.facts.lin, [(m[0], m[1], m[2], hex(m[3])) for m in g.facts.masks], "INSTANCE", c.st.facts.lin,  [(m[0], m[1], m[2], hex(m[3])) for m in c.st.facts.masks])
            raise Stop("join is not an upper bound")
        grp["by"][key] = (c2, n + 1)
        self.stats["widened"] = self.stats.get("widened", 0) + 1
        if self.dfs:
            work_copy = g.copy()
            self.replace(st, work_copy)
            return None
        self.pend[(point, c.base, key)] = self.rank(g)
        return "stop"

    @staticmethod
    def replace(st, g):
        for k in State.__slots__:
            setattr(st, k, getattr(g, k))

    def resume(self):
        """The join point to go on from: what comes first in the program, inner loops before the
        loops around them."""
        best = None
        for k, r in self.pend.items():
            if best is None or self.before(r, best[1]):
                best = (k, r)
        k = best[0]
        del self.pend[k]
        c, n = self.invs[k[:2]]["by"][k[2]]
        return c.st.copy()

    def rank(self, st):
        return tuple((f.fn, f.bb) for f in st.frames)

    def before(self, a, b):
        for (f, x), (g, y) in zip(a, b):
            if f != g:
                break
            if x == y:
                continue
            pos, loops = self.p.loop_nest(f)
            if x in loops.get(y, ()) and not y in loops.get(x, ()):
                return True
            if y in loops.get(x, ()) and not x in loops.get(y, ()):
                return False
            return pos.get(x, 0) < pos.get(y, 0)
        return len(a) > len(b)

    def at_head(self, st, fr, bb):
        if fr.loops is None:
            fr.loops = {}
        c = fr.loops.get(bb)
        if c is None:
            fr.loops[bb] = (st.nsplit, 0, 0, None)
            return None
        ns, symc, conc, snap = c
        if st.nsplit > ns:
            # an iteration that depended on the inputs
            symc += 1
            st.unr += 1
            now = None
            if not st.wide and not st.taint:
                now = self.snapshot(st)
                if self.as_before(st, snap, now, True):
                    return self.endless(st)
            fr.loops[bb] = (st.nsplit, symc, 0, now)
            if st.unr > self.unroll:
                if self.wide:
                    return self.at_join(st, ("head", fr.fn, bb))
                self.stats["bounded"] += 1
                return "stop"
            return None
        conc += 1
        if conc > 100_000:
            raise Stop("loop limit")
        if conc >= 64 and not st.wide and not st.taint:
            # most loops turn a few times only: look now and then
            if conc & (conc - 1) == 0:
                snap = self.snapshot(st)
            elif (conc - 1) & (conc - 2) == 0:
                now = self.snapshot(st)
                if self.as_before(st, snap, now, conc < 1025):
                    return self.endless(st)
                snap = None
        fr.loops[bb] = (st.nsplit, symc, conc, snap)
        return None

    @staticmethod
    def snapshot(st):
        """Everything the course of the program depends on."""
        return dict(st.mem), dict(st.g), tuple([x for x in st.facts.nd if not (isinstance(x[0], tuple) and x[0][0] == "ne")])

    def as_before(self, st, a, b, strict):
        """Whether all is as it was; or all but what the caller holds (its buffers, which grow)."""
        if a is None or self.callers(st.frames[-1].fn) or a[2] != b[2] or strict and a[1] != b[1]:
            return False
        own = {f.fid for f in st.frames if strict or not self.callers(f.fn)}
        met = set()

        def eq(x, y):
            if x is y:
                return True
            if type(x) is Agg:
                return type(y) is Agg and x.v == y.v and len(x.fs) == len(y.fs) and all(map(eq, x.fs, y.fs))
            if type(x) is Ptr:
                if type(y) is not Ptr or x.path != y.path or x.meta != y.meta:
                    return False
                k, l = x.key, y.key
                if k == l and (not strict or not isinstance(k, tuple) or k[0] != "h"):
                    return True
                # a literal has a new place each time
                if not (isinstance(k, tuple) and isinstance(l, tuple) and k[0] == l[0] == "h"):
                    return False
                if (k, l) in met:
                    return True
                met.add((k, l))
                return (k in a[0]) == (l in b[0]) and (k not in a[0] or eq(a[0][k], b[0][l]))
            return x == y
        for k, v in a[0].items():
            if k[0] in own and not (k in b[0] and eq(v, b[0][k])):
                return False
        return all(k in a[0] for k in b[0] if k[0] in own)

    def callers(self, fn):
        """Whether the function is the caller's, not the library's."""
        n = self.p.fns[fn]["name"]
        return n.startswith(("witness::", "<witness::")) and not n.startswith(("witness::shims::", "witness::stdshims::"))

    def endless(self, st):
        """An iteration has left all as it was."""
        self.results.append(dict(prop="C39", what="every loop ends", status="violation", detail="an iteration changes nothing: the loop goes on for ever", where=self.where(st), facts=st.facts))
        return "stop"

    def ret(self, st, v):
        fr = st.frames.pop()
        fid = fr.fid
        for k in [k for k in st.mem if k[0] == fid]:
            del st.mem[k]
        if not st.frames:
            return "end"
        up = st.frames[-1]
        if fr.dest is not None:
            self.store(st, fr.dest, v)
        if fr.tgt is None:
            return "stop"
        return self.jump(st, up, fr.tgt)

    def term(self, st, fr, t):
        k = t[0]
        if k == "goto":
            return self.jump(st, fr, t[1])
        if k == "switch":
            fr.span = t[5]
            v = self.operand(st, fr, t[1])
            vals = [int(a) for a, _ in t[2]]
            if isinstance(v, int):
                if v < 0:
                    bits, _ = self.ity(t[4])
                    v &= (1 << bits) - 1
                w = v if v in vals else None
            else:
                w = self.concretise(st, v, vals)
            for a, b in t[2]:
                if w is not None and int(a) == w:
                    return self.jump(st, fr, b)
            return self.jump(st, fr, t[3])
        if k == "return":
            v = st.mem.get((fr.fid, 0), UNIT)
            return self.ret(st, v)
        if k == "drop":
            if t[3] is not None:
                return self.drop(st, fr, t)
            return self.jump(st, fr, t[2])
        if k == "call":
            return self.call(st, fr, t)
        if k == "assert":
            fr.span = t[5]
            v = self.operand(st, fr, t[1])
            if t[3] in ("MisalignedPointerDereference", "NullPointerDereference") and not isinstance(v, int):
                return self.jump(st, fr, t[4])
            if self.concretise(st, v, [1]) == 1:
                good = t[2]
            else:
                good = not t[2]
            if good:
                return self.jump(st, fr, t[4])
            if self.taint_of(v):
                return "stop"
            raise Panic("arithmetic or bounds check failed: " + t[3])
        if k == "unreachable":
            return "stop"
        if k in ("resume", "abort"):
            return "stop"
        raise Stop("terminator " + k)

    def taint_of(self, v):
        return type(v) is Unk

    def drop(self, st, fr, t):
        f = self.p.fns[t[3]]
        if "body" not in f or not self.has_user_drop(t[3]):
            return self.jump(st, fr, t[2])
        cur = self.place(st, fr, t[1])
        p = self.mkref(st, cur, True)
        self.push(st, t[3], [p], None, t[2])
        return None

    def has_user_drop(self, fn, seen=None):
        """Whether drop glue reaches a Drop implementation with a body."""
        c = self.p.__dict__.setdefault("_ud", {})
        if fn in c:
            return c[fn]
        c[fn] = False
        b = self.p.body(fn)
        r = False
        if b:
            for st, t in b["blocks"]:
                if t[0] == "drop" and t[3] is not None and self.has_user_drop(t[3]):
                    r = True
                if t[0] == "call" and isinstance(t[1], int):
                    d = self.p.fns[t[1]]["def"]
                    if d.endswith("::drop") and ("oauth" in d or "witness" in d or "Guard<" in d or "cell::BorrowRef" in d):
                        r = True
        c[fn] = r
        return r

    def call(self, st, fr, t):
        _, callee, fop, args, dest, tgt, span, _ = t
        fr.span = span
        vs = [self.operand(st, fr, a) for a in args]
        if callee is None:
            f = self.operand(st, fr, fop)
            if type(f) is not Fn:
                raise Stop("call of unknown function")
            callee = f.f
        elif isinstance(callee, str):
            raise Stop("unresolved call to " + callee)
        d = self.place(st, fr, dest)
        if self.p.fns[callee].get("unsafe") and span and "/repo/" in self.p.files[span[0]]:
            self.models.on_unsafe(self, st, self.p.fns[callee], vs)
        return self.invoke(st, callee, vs, d, tgt)

    def ctor(self, f, vs):
        """The value that a constructor used as a function returns."""
        if "ret" not in f:
            return None
        t = self.p.types[f["ret"]]
        if t["k"] == "adt":
            for i, v in enumerate(t["variants"]):
                if v["name"] == f["def"].split("::")[-1] and len(v["fields"]) == len(vs):
                    return Agg(i, tuple(vs))
        return None

    def invoke(self, st, callee, vs, d, tgt):
        for _ in range(20):
            f = self.p.fns[callee]
            if f["kind"] == "virtual":
                p = vs[0]
                q = p
                while type(q) is Agg and q.fs:
                    q = q.fs[0]
                if type(q) is not Ptr or not q.meta or q.meta[0] != "vt":
                    raise Stop("virtual call on %r" % (type(q).__name__,))
                slot = self.p.vtables[q.meta[1]]["slots"][f["idx"]]
                if slot is None:
                    raise Stop("vtable slot")
                callee = slot
                vs = [Ptr(q.key, q.path)] + list(vs[1:])
                x = self.read(st, q.key, q.path)
                continue
            m = self.models.find(self, callee, f)
            if m is not None:
                r = m(self, st, f, vs)
                if CALLS:
                    print("  " * len(st.frames), f["name"][:100], vs, "->", r if r is not FALL else "", file=sys.stderr)
                if r is FALL:
                    self.push(st, callee, vs, d, tgt)
                    return None
                if type(r) is Call:
                    callee, vs = r.f, r.args
                    continue
                self.store(st, d, r)
                if tgt is None:
                    return "stop"
                r = self.jump(st, st.frames[-1], tgt)
                j = st.g.pop("\0join", None)
                if j is not None and r is None and self.wide:
                    return self.at_join(st, ("probe", j))
                return r
            if f.get("empty"):
                self.store(st, d, UNIT)
                return self.jump(st, st.frames[-1], tgt)
            if "body" in f:
                if CALLS:
                    print("  " * len(st.frames), f["name"][:100], vs, "...", file=sys.stderr)
                self.push(st, callee, vs, d, tgt)
                return None
            r = self.ctor(f, vs)
            if r is not None:
                self.store(st, d, r)
                return self.jump(st, st.frames[-1], tgt)
            if f["kind"] == "intrinsic":
                self.note("intrinsic", "no model for intrinsic %s" % f["iname"], st)
            else:
                self.note("model", "no model for %s" % f["name"], st)
            if tgt is None:
                raise Stop("call of %s" % f["def"], quiet=True)
            self.do_taint(st, "no model for %s" % f["def"])
            self.store(st, d, Unk("result of " + f["def"]))
            return self.jump(st, st.frames[-1], tgt)
        raise Stop("call chain")
