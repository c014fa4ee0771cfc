"""Meaning of library functions (and of the witness crate's probe functions)."""
import json, re
from seq import *
from facts import Split
from interp import *

EX = {}
RX = []


def m(*names):
    def deco(f):
        for n in names:
            if n.startswith("~"):
                RX.append((re.compile(n[1:]), f))
            else:
                EX[n] = f
        return f
    return deco


class Models:
    def __init__(self):
        self.cache = {}
        self.by_def = None

    def find(self, I, fn, f):
        if fn in self.cache:
            return self.cache[fn]
        d = f["def"]
        r = EX.get(d)
        if r is None and f["kind"] == "intrinsic":
            r = EX.get("intrinsic:" + f["iname"])
        if r is None:
            for rx, g in RX:
                if rx.search(d):
                    r = g
                    break
        self.cache[fn] = r
        if r is not None:
            I.modelled[d] = I.modelled.get(d, 0) + 1
        return r

    def fn_by_def(self, I, d, args=None):
        if self.by_def is None:
            self.by_def = {}
            for i, f in enumerate(I.p.fns):
                self.by_def.setdefault(f["def"], i)
                self.by_def.setdefault((f["def"], json.dumps(f["args"])), i)
        r = self.by_def.get(d if args is None else (d, json.dumps(args)))
        if r is None:
            raise Stop("no function " + d)
        return r

    def on_panic(self, I, st, msg):
        exp = st.g.get("expect_panic")
        if exp and exp[1] in msg:
            I.results.append(dict(prop=exp[0], what=exp[2], status="ok", detail="panics with %r" % msg, where=I.where(st)))
            return
        props = st.g.get("panic_prop", ("C39",))
        if props is None:
            return
        status = "violation" if not (st.taint or st.wide) else "undecided"
        I.results.append(dict(prop=props[0], what="no panic", status=status, detail="panic: " + msg + (" [" + "; ".join(st.taint) + "]" if st.taint else ""), where=I.where(st), facts=st.facts))

    def on_unsafe(self, I, st, f, a):
        import lib_unsafe
        lib_unsafe.unsafe_call(I, st, f, a)

    def on_cast(self, I, st, frm, to):
        import lib_unsafe
        lib_unsafe.cast(I, st, frm, to)

    def on_end(self, I, st):
        exp = st.g.get("expect_panic")
        if not exp and st.g.get("panic_prop", ("C39",)) == ("C39",):
            I.stats["returns"] = I.stats.get("returns", 0) + 1
        if exp:
            I.results.append(dict(prop=exp[0], what=exp[2], status="undecided" if st.taint or st.wide else "violation", detail="returns instead of panicking", where=I.where(st)))

    def copy(self, I, st, src, dst, cnt):
        raise Stop("raw copy")

    def elem(self, I, st, v, i):
        return Unk("list element")


def deref(I, st, v):
    """The value behind a reference."""
    if type(v) is Ptr:
        x = I.read(st, v.key, v.path)
        return x
    if type(v) is SV:
        return Buf(v.s)
    return Unk("deref")


def deref_all(I, st, v):
    while type(v) is Ptr:
        if v.meta and v.meta[0] == "sl":
            return Buf(I.content(st, v))
        v = I.read(st, v.key, v.path)
    return v


def text(I, st, v):
    """The content behind (any number of) references to a string-like value."""
    while type(v) is Ptr:
        if v.meta and v.meta[0] == "sl":
            return I.content(st, v)
        v = I.read(st, v.key, v.path)
    if type(v) in (SV, Buf):
        return v.s
    if type(v) is Agg and len(v.fs) >= 1:
        return text(I, st, v.fs[0])
    return I.unk_seq(st, "text of %s" % (v.why if type(v) is Unk else type(v).__name__))


def setbuf(I, st, p, seq):
    """Store the content of the String / Vec<u8> behind p."""
    cur = I.deref(st, p)
    while cur[0] == "loc":
        v = I.read(st, cur[1], cur[2])
        if type(v) is Ptr:
            cur = I.deref(st, v)
            continue
        break
    I.store(st, cur, Buf(seq))


def is_unk(s):
    return has_unk(s)


def argty(I, f, i=0):
    a = f["args"]
    return I.p.types[a[i]] if i < len(a) else None


def is_u8(t):
    return t is not None and t["k"] == "uint" and t["bits"] == 8


# ---------------------------------------------------------------------------- fmt ------------
@m("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug",
   "core::fmt::rt::Argument::<'_>::new_lower_hex", "core::fmt::rt::Argument::<'_>::new_upper_hex", "core::fmt::rt::Argument::<'_>::new_octal",
   "core::fmt::rt::Argument::<'_>::new_pointer", "core::fmt::rt::Argument::<'_>::new_binary", "core::fmt::rt::Argument::<'_>::from_usize")
def _(I, st, f, a):
    kind = f["def"].rsplit("::", 1)[1]
    if kind == "from_usize":
        return Op("farg", a[0], "usize", None)
    # the body mentions the formatting function as a constant
    fn = None
    for blk in f.get("body", {}).get("blocks", []):
        for s in blk[0]:
            if s[0] == "=":
                fn = fn if fn is not None else find_fn(I, s[2])
        if blk[1][0] == "call":
            for o in blk[1][3]:
                if o[0] == "k" and isinstance(o[2], dict) and "fn" in o[2]:
                    fn = o[2]["fn"]
                elif o[0] == "k" and I.p.types[o[1]]["k"] == "fndef" and "fn" in I.p.types[o[1]]:
                    fn = I.p.types[o[1]]["fn"]
    return Op("farg", a[0], kind, fn)


def find_fn(I, r):
    if isinstance(r, list):
        if len(r) == 3 and r[0] == "k":
            t = I.p.types[r[1]]
            if t["k"] == "fndef" and "fn" in t:
                return t["fn"]
            if isinstance(r[2], dict) and "fn" in r[2]:
                return r[2]["fn"]
        if r and r[0] == "cast" and isinstance(r[5], int):
            return r[5]
        for x in r:
            y = find_fn(I, x)
            if y is not None:
                return y
    return None


@m("std::fmt::Arguments::<'a>::new")
def _(I, st, f, a):
    t = lit_of(text(I, st, a[0]))
    arr = deref(I, st, a[1])
    if t is None or type(arr) is not Agg:
        return Unk("format arguments")
    pieces = []
    i = ai = 0
    while True:
        n = t[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            pieces.append(("lit", t[i:i + n]))
            i += n
        elif n == 0x80:
            k = t[i] | t[i + 1] << 8
            i += 2
            pieces.append(("lit", t[i:i + k]))
            i += k
        else:
            fl, w, p = 0x20 | 3 << 29, 0, 0
            if n & 1:
                fl = int.from_bytes(t[i:i + 4], "little")
                i += 4
            if n & 2:
                w = int.from_bytes(t[i:i + 2], "little")
                i += 2
            if n & 4:
                p = int.from_bytes(t[i:i + 2], "little")
                i += 2
            if n & 8:
                ai = int.from_bytes(t[i:i + 2], "little")
                i += 2
            if n & 16:
                w = arr.fs[w]
            if n & 32:
                p = arr.fs[p]
            pieces.append(("arg", ai, fl, w, p))
            ai += 1
    return Op("fmtargs", tuple(pieces), arr.fs)


@m("std::fmt::Arguments::<'a>::from_str", "std::fmt::Arguments::<'a>::from_str_nonconst")
def _(I, st, f, a):
    return Op("fmtargs", (("lit", lit_of(text(I, st, a[0]))),), ())


def fmtargs(I, st, v):
    while type(v) is Ptr:
        v = deref(I, st, v)
    if type(v) is Op and v.k == "fmtargs":
        return v
    raise Stop("format arguments")


@m("std::fmt::Arguments::<'a>::as_str", "std::fmt::Arguments::<'a>::as_statically_known_str")
def _(I, st, f, a):
    v = fmtargs(I, st, a[0])
    if all(p[0] == "lit" for p in v.a[0]):
        return some(SV(lit(b"".join(p[1] for p in v.a[0]))))
    return NONE


def formatter(I, st, p):
    v = deref(I, st, p)
    if type(v) is Agg and len(v.fs) == 2:
        return v
    raise Stop("formatter")


def vcall(I, st, dyn, slot, args):
    """Call of a trait object's method."""
    q = dyn
    while type(q) is Agg and q.fs:
        q = q.fs[0]
    if type(q) is not Ptr or not q.meta or q.meta[0] != "vt":
        raise Stop("trait object")
    fn = I.p.vtables[q.meta[1]]["slots"][slot]
    return Call(fn, [Ptr(q.key, q.path)] + args)


def fwrite(I, st, f, seq):
    return vcall(I, st, formatter(I, st, f).fs[1], 3, [SV(seq)])


@m("std::fmt::Formatter::<'a>::new")
def _(I, st, f, a):
    return Agg(0, (a[1], a[0]))


@m("std::fmt::Formatter::<'a>::write_str", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_str")
def _(I, st, f, a):
    return vcall(I, st, formatter(I, st, a[0]).fs[1], 3, [a[1]])


@m("<std::fmt::Formatter<'_> as std::fmt::Write>::write_char")
def _(I, st, f, a):
    return vcall(I, st, formatter(I, st, a[0]).fs[1], 4, [a[1]])


@m("std::fmt::Formatter::<'a>::write_fmt", "<std::fmt::Formatter<'_> as std::fmt::Write>::write_fmt")
def _(I, st, f, a):
    return Call(I.models.fn_by_def(I, "witness::shims::fmt_write"), [formatter(I, st, a[0]).fs[1], a[1]])


@m("<std::fmt::Arguments<'_> as std::fmt::Debug>::fmt", "<std::fmt::Arguments<'_> as std::fmt::Display>::fmt")
def _(I, st, f, a):
    v = a[0]
    while type(v) is Ptr:
        v = I.read(st, v.key, v.path)
    return Call(I.models.fn_by_def(I, "witness::shims::fmt_write"), [formatter(I, st, a[1]).fs[1], v])


@m("std::fmt::Formatter::<'a>::debug_c_like_enum_write_str")
def _(I, st, f, a):
    return fwrite(I, st, a[0], text(I, st, a[1]))


def plain(I, st, f):
    o = formatter(I, st, f).fs[0]
    if type(o) is Agg and isinstance(o.fs[0], int):
        return o.fs[0] >> 27 & 3 == 0 and o.fs[0] >> 21 & 0b11111 & ~0b100 == 0
    return False


@m("std::fmt::Formatter::<'a>::pad", "<str as std::fmt::Display>::fmt", "<std::string::String as std::fmt::Display>::fmt")
def _(I, st, f, a):
    fm, s = (a[0], a[1]) if f["def"].endswith("pad") else (a[1], a[0])
    s = text(I, st, s)
    if not plain(I, st, fm):
        s = padded(I, st, fm, s, False) or s
    return fwrite(I, st, fm, s)


def padded(I, st, f, s, number):
    """A constant rendered with a width and a precision (core::fmt::Formatter::pad, pad_integral)."""
    o = formatter(I, st, f).fs[0]
    l = lit_of(s)
    if l is None or not (type(o) is Agg and len(o.fs) == 3 and all(isinstance(x, int) for x in o.fs)):
        I.do_taint(st, "padding")
        return None
    fl, width, prec = o.fs
    l = l.decode("utf8", "surrogateescape")
    sign = ""
    if number:
        if l[:1] == "-":
            sign, l = "-", l[1:]
        elif fl >> 21 & 1:
            sign = "+"
    elif fl >> 28 & 1:
        l = l[:prec]
    n = (width if fl >> 27 & 1 else 0) - len(sign) - len(l)
    if n > 0 and number and fl >> 24 & 1:
        l, n = "0" * n + l, 0
    l = sign + l
    if n > 0:
        al = fl >> 29 & 3
        al = (1 if number else 0) if al == 3 else al
        left = (0, n, n // 2)[al]
        c = chr(fl & 0x1fffff)
        l = c * left + l + c * (n - left)
    return lit(l.encode("utf8", "surrogateescape"))


def esc(s):
    """An uninterpreted rendering which keeps the input visible."""
    return cat(lit('"'), apply(DBG, s), lit('"'))


DBG = mkH([b"\\x%02x" % i if i in b'"\\\n\r\t\0' else bytes([i]) for i in range(256)], "dbg")


@m("<str as std::fmt::Debug>::fmt", "<std::string::String as std::fmt::Debug>::fmt")
def _(I, st, f, a):
    return fwrite(I, st, a[1], esc(text(I, st, a[0])))


@m(r"~^core::fmt::num::imp::<impl std::fmt::Display for ([ui]\d+|[ui]size)>::fmt$", r"~^core::fmt::num::<impl std::fmt::Debug for ([ui]\d+|[ui]size)>::fmt$",
   "~^<impl std::fmt::Display for [ui].*>::fmt$")
def _(I, st, f, a):
    v = deref_all(I, st, a[0])
    s = decimal(I, st, v)
    if not plain(I, st, a[1]):
        s = padded(I, st, a[1], s, True) or s
    return fwrite(I, st, a[1], s)


@m(r"~^core::fmt::num::imp::<impl [ui](\d+|size)>::_fmt$")
def _(I, st, f, a):
    v = a[0]
    return SV(decimal(I, st, deref_all(I, st, v) if type(v) is Ptr else v))


def decimal(I, st, v):
    while type(v) is Agg and v.fs:
        v = v.fs[0]
    if isinstance(v, int):
        return lit(str(v))
    if isinstance(v, Lin):
        return whole(("dec", v))
    if type(v) is Tab:
        return norm([("s", v.name, v.i, ladd(v.i, 1), mkH([None if x is None else str(x).encode() for x in v.t]))])
    return I.unk_seq(st, "decimal")


@m(r"~^core::fmt::num::<impl std::fmt::(Upper|Lower)Hex for ([ui]\d+|[ui]size)>::fmt$")
def _(I, st, f, a):
    v = deref_all(I, st, a[0])
    o = formatter(I, st, a[1]).fs[0]
    up = "UpperHex" in f["def"]
    fl = o.fs[0]
    w = o.fs[1] if fl >> 27 & 1 else 0
    zero = fl >> 24 & 1
    alt = fl >> 23 & 1

    def h(x):
        s = ("%X" if up else "%x") % x
        if alt:
            return None
        return s.rjust(w, "0" if zero else " ").encode()
    if isinstance(v, int) and v >= 0 and not alt:
        return fwrite(I, st, a[1], lit(h(v)))
    if type(v) is Tab and not alt:
        return fwrite(I, st, a[1], norm([("s", v.name, v.i, ladd(v.i, 1), mkH([None if x is None else h(x) for x in v.t]))]))
    return fwrite(I, st, a[1], I.unk_seq(st, "hex"))


@m("<bool as std::fmt::Display>::fmt", "<bool as std::fmt::Debug>::fmt")
def _(I, st, f, a):
    v = deref_all(I, st, a[0])
    if isinstance(v, int):
        return fwrite(I, st, a[1], lit("true" if v else "false"))
    return fwrite(I, st, a[1], I.unk_seq(st, "bool"))


@m("<char as std::fmt::Display>::fmt")
def _(I, st, f, a):
    return fwrite(I, st, a[1], char_seq(I, st, deref_all(I, st, a[0])))


def char_seq(I, st, c):
    if isinstance(c, int):
        return lit(chr(c))
    if type(c) is Tab:
        return norm([("s", c.name, c.i, ladd(c.i, 1), mkH([None if x is None or not isinstance(x, int) else chr(x).encode() for x in c.t]))])
    return I.unk_seq(st, "char")


@m(r"~^core::char::methods::<impl char>::encode_utf8$", r"~^(core|std)::char::(methods::)?encode_utf8_raw(_unchecked)?$")
def _(I, st, f, a):
    s = char_seq(I, st, a[0])
    if is_unk(s):
        raise Stop("encoding of a character")
    d = a[1]
    if type(d) is Ptr:
        x = I.read(st, d.key, d.path)
        lo, hi = (d.meta[1], d.meta[2]) if d.meta and d.meta[0] == "sl" else (d.meta[1] if d.meta and d.meta[0] == "el" else 0, None)
        if type(x) is Buf:
            n, k = length(s), length(x.s)
            end = ladd(lo, n)
            if not st.facts.decide(("ge", lsub(k if hi is None else hi, end))):
                raise Panic("encode_utf8: buffer too small")
            I.store(st, ("loc", d.key, d.path, None), Buf(cat(I.slice(st, x.s, 0, lo), s, I.slice(st, x.s, end, k))))
            return Ptr(d.key, d.path, ("sl", lo, end))
        if type(x) is Unk:
            # an uninitialised buffer
            if "raw" in f["def"]:
                raise Stop("encoding of a character into raw memory")
    return SV(s)


@m(r"~^core::char::methods::<impl char>::len_utf8$")
def _(I, st, f, a):
    if not isinstance(a[0], int):
        raise Stop("length of a character")
    return len(chr(a[0]).encode())


# ---------------------------------------------------------------------------- String ----------
STRING = "std::string::String"


@m("std::string::String::new", "std::string::String::with_capacity", "<std::string::String as std::default::Default>::default")
def _(I, st, f, a):
    return Buf(())


@m("std::string::String::push_str", "<std::string::String as std::fmt::Write>::write_str", "<std::string::String as std::ops::AddAssign<&str>>::add_assign",
   "std::vec::Vec::<T, A>::extend_from_slice", "<std::vec::Vec<u8> as std::io::Write>::write_all")
def _(I, st, f, a):
    s = cat(text(I, st, a[0]), text(I, st, a[1]))
    setbuf(I, st, a[0], s)
    return ok() if "Write" in f["def"] else UNIT


@m("std::string::String::push", "<std::string::String as std::fmt::Write>::write_char")
def _(I, st, f, a):
    s = cat(text(I, st, a[0]), char_seq(I, st, a[1]))
    setbuf(I, st, a[0], s)
    return ok() if "Write" in f["def"] else UNIT


@m("<std::string::String as std::ops::Add<&str>>::add")
def _(I, st, f, a):
    return Buf(cat(text(I, st, a[0]), text(I, st, a[1])))


@m("std::string::String::clear")
def _(I, st, f, a):
    setbuf(I, st, a[0], ())
    return UNIT


@m("std::string::String::insert_str")
def _(I, st, f, a):
    s = text(I, st, a[0])
    i = a[1]
    n = length(s)
    setbuf(I, st, a[0], cat(I.slice(st, s, 0, i), text(I, st, a[2]), I.slice(st, s, i, n)))
    return UNIT


@m("std::string::String::truncate")
def _(I, st, f, a):
    s = text(I, st, a[0])
    n = length(s)
    if st.facts.decide(("ge", lsub(n, a[1]))):
        setbuf(I, st, a[0], I.slice(st, s, 0, a[1]))
    return UNIT


@m("std::string::String::pop")
def _(I, st, f, a):
    s = text(I, st, a[0])
    if not s:
        return NONE
    l = s[-1]
    if l[0] == "l" and l[1][-1] < 128:
        setbuf(I, st, a[0], norm(s[:-1] + (("l", l[1][:-1]),)))
        return some(l[1][-1])
    setbuf(I, st, a[0], I.unk_seq(st, "pop"))
    return some(Unk("popped char"))


@m("std::string::String::reserve", "std::string::String::shrink_to_fit", "std::string::String::reserve_exact", "std::vec::Vec::<T, A>::reserve")
def _(I, st, f, a):
    return UNIT


@m("std::string::String::as_str", "<std::string::String as std::ops::Deref>::deref", "std::string::String::as_bytes",
   "~^std::string::<impl std::convert::AsRef<.*> for std::string::String>::as_ref$", "~^<std::string::String as std::convert::AsRef<.*>>::as_ref$",
   "~^<std::string::String as std::borrow::Borrow<str>>::borrow$", "core::str::<impl str>::as_bytes",
   "~^std::str::<impl std::convert::AsRef<.*> for str>::as_ref$", "~^<str as std::convert::AsRef<.*>>::as_ref$", "~impl std::convert::AsRef<.*> for (str|\\[T\\]|std::string::String)>::as_ref$",
   "~impl std::borrow::Borrow<str> for std::string::String>::borrow$", "core::str::<impl str>::as_str")
def _(I, st, f, a):
    v = a[0]
    if type(v) is Ptr and not (v.meta and v.meta[0] == "sl"):
        x = deref_all(I, st, v)
        if type(x) is Op and x.k == "vec":
            return Ptr(v.key, v.path, ("sl", 0, len(x.a[0])))
    if type(v) is Ptr and v.meta and v.meta[0] == "sl" and type(I.read(st, v.key, v.path)) is not Buf:
        return v
    return SV(text(I, st, v))


@m("std::string::String::len", "core::str::<impl str>::len", "core::slice::<impl [T]>::len")
def _(I, st, f, a):
    v = a[0]
    if type(v) is Ptr and v.meta and v.meta[0] == "sl":
        return lsub(v.meta[2], v.meta[1])
    return length(text(I, st, v))


@m("std::string::String::is_empty", "core::str::<impl str>::is_empty", "core::slice::<impl [T]>::is_empty")
def _(I, st, f, a):
    v = a[0]
    n = lsub(v.meta[2], v.meta[1]) if type(v) is Ptr and v.meta and v.meta[0] == "sl" else length(text(I, st, v))
    return int(st.facts.decide(("eq", n)))


@m("std::string::String::capacity", "std::vec::Vec::<T, A>::capacity")
def _(I, st, f, a):
    return Unk("capacity")


@m("~^<std::string::String as std::clone::Clone>::clone$", "~^(alloc|std)::str::<impl std::borrow::ToOwned for str>::to_owned$", "~<impl std::borrow::ToOwned for str>::to_owned$",
   "~^<std::string::String as std::convert::From<.*>>::from$", "~^<str as std::string::ToString>::to_string$", "~^<(&*str|&*std::string::String) as .*SpecToString>::spec_to_string$",
   "std::string::String::from_utf8_unchecked", "std::string::String::into_bytes", "std::string::String::into_boxed_str", "~<impl std::convert::From<&str> for std::string::String>::from$",
   "core::str::<impl str>::to_owned", "std::str::<impl str>::into_string", "~^<impl std::borrow::ToOwned for str>::to_owned$", "~slice::<impl std::borrow::ToOwned for \\[T\\]>::to_owned$",
   "~^std::slice::<impl \\[T\\]>::to_vec$")
def _(I, st, f, a):
    return Buf(text(I, st, a[0]))


@m("std::str::from_utf8_unchecked", "std::str::from_utf8_unchecked_mut", "core::str::<impl str>::from_utf8_unchecked", "core::str::converts::from_utf8_unchecked")
def _(I, st, f, a):
    if type(a[0]) is Ptr and a[0].meta and not f["def"].endswith("mut"):
        return SV(text(I, st, a[0]))
    return a[0]


@m("std::str::from_utf8", "core::str::converts::from_utf8")
def _(I, st, f, a):
    s = text(I, st, a[0])
    l = lit_of(s)
    if l is not None:
        try:
            l.decode()
            return ok(SV(s))
        except UnicodeDecodeError:
            return err(Unk("utf8 error"))
    # every symbol is either text or an ASCII function
    for x in s:
        if x[0] == "s":
            if isinstance(x[1], tuple) and x[1][0] == "unk":
                I.do_taint(st, "from_utf8 of unknown bytes")
            elif isinstance(x[1], str) and x[1].startswith("raw:"):
                m_ = st.facts.mask_range(x[1], x[2], x[3])
                if any(b >= 128 for b in mask_bytes(m_)):
                    if not st.facts.decide(("nd", ("utf8", s))):
                        return err(Unk("utf8 error"))
    return ok(SV(s))


@m("std::string::String::from_utf8")
def _(I, st, f, a):
    return ok(Buf(text(I, st, a[0])))


def cmp3(I, st, x, y):
    if st.facts.same(x, y) is True:
        return 0
    if st.facts.decide(("<", x, y)):
        return -1
    return 0 if st.facts.decide(("==", x, y)) else 1


def eqs(I, st, x, y):
    r = st.facts.same(x, y)
    if r is True:
        return True
    lx, ly = lit_of(x), lit_of(y)
    if lx is not None and ly is not None:
        return False
    if has_unk(x) or has_unk(y):
        I.do_taint(st, "comparison of unknown text")
    return st.facts.decide(("==", x, y))


@m("~^core::str::traits::<impl std::cmp::PartialEq for str>::(eq|ne)$", "~^<std::string::String as std::cmp::PartialEq(<.*>)?>::(eq|ne)$", "~^<str as std::cmp::PartialEq(<.*>)?>::(eq|ne)$",
   "~^<&.* str as std::cmp::PartialEq<std::string::String>>::(eq|ne)$", "~^std::string::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$",
   "~^core::slice::cmp::<impl std::cmp::PartialEq<\\[U\\]> for \\[T\\]>::(eq|ne)$", "~^core::str::<impl str>::eq$", "~^core::array::equality::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$",
   "~^std::str::<impl std::cmp::PartialEq for str>::(eq|ne)$", "~^<impl std::cmp::PartialEq.* for str>::(eq|ne)$",
   "~^std::vec::partial_eq::<impl .*>::(eq|ne)$")
def _(I, st, f, a):
    if ("slice::cmp" in f["def"] or "array::equality" in f["def"] or "vec::partial_eq" in f["def"]) and not (bytes_like(I, st, a[0]) and bytes_like(I, st, a[1])):
        return FALL
    r = int(eqs(I, st, text(I, st, a[0]), text(I, st, a[1])))
    return r if f["def"].endswith("::eq") else 1 - r


def bytes_like(I, st, v):
    """Is this (behind references) a text or a sequence of bytes?"""
    x = v
    while type(x) is Ptr:
        if x.meta and x.meta[0] == "sl":
            return type(I.read(st, x.key, x.path)) is Buf
        x = I.read(st, x.key, x.path)
    return type(x) in (SV, Buf)


ORD = {-1: LESS, 0: EQUAL, 1: GREATER}


@m("<u8 as core::slice::cmp::SliceOrd>::compare")
def _(I, st, f, a):
    if not (bytes_like(I, st, a[0]) and bytes_like(I, st, a[1])):
        return FALL
    return ORD[cmp3(I, st, text(I, st, a[0]), text(I, st, a[1]))]


@m("~^core::str::traits::<impl std::cmp::Ord for str>::cmp$", "~^<std::string::String as std::cmp::Ord>::cmp$", "~<impl std::cmp::Ord for str>::cmp$", "~^core::slice::cmp::<impl std::cmp::Ord for \\[T\\]>::cmp$")
def _(I, st, f, a):
    if "slice::cmp" in f["def"] and not (bytes_like(I, st, a[0]) and bytes_like(I, st, a[1])):
        return FALL
    return ORD[cmp3(I, st, text(I, st, a[0]), text(I, st, a[1]))]


@m("~^core::str::traits::<impl std::cmp::PartialOrd for str>::partial_cmp$", "~^<std::string::String as std::cmp::PartialOrd>::partial_cmp$", "~<impl std::cmp::PartialOrd for str>::partial_cmp$",
   "~^core::slice::cmp::<impl std::cmp::PartialOrd for \\[T\\]>::partial_cmp$")
def _(I, st, f, a):
    if "slice::cmp" in f["def"] and not (bytes_like(I, st, a[0]) and bytes_like(I, st, a[1])):
        return FALL
    return some(ORD[cmp3(I, st, text(I, st, a[0]), text(I, st, a[1]))])


@m("~^core::str::traits::<impl std::cmp::PartialOrd for str>::(lt|le|gt|ge)$", "~^<std::string::String as std::cmp::PartialOrd>::(lt|le|gt|ge)$", "~<impl std::cmp::PartialOrd for str>::(lt|le|gt|ge)$",
   "~^core::slice::cmp::<impl std::cmp::PartialOrd for \\[T\\]>::(lt|le|gt|ge)$")
def _(I, st, f, a):
    if "slice::cmp" in f["def"] and not (bytes_like(I, st, a[0]) and bytes_like(I, st, a[1])):
        return FALL
    c = cmp3(I, st, text(I, st, a[0]), text(I, st, a[1]))
    k = f["def"][-2:]
    return int({"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[k])


def pattern_mask(I, st, p):
    """The bytes a pattern matches, for ASCII char patterns."""
    if isinstance(p, int) and p < 128:
        return 1 << p
    if type(p) is Agg or type(p) is Ptr:
        v = p
        while type(v) is Ptr:
            v = deref(I, st, v)
        if type(v) is Agg and v.fs and all(isinstance(x, int) and x < 128 for x in v.fs):
            return mask_of(v.fs)
    if type(p) is SV:
        l = lit_of(p.s)
        if l is not None and len(l) == 1 and l[0] < 128:
            return 1 << l[0]
    return None


def has_byte(I, st, s, mask):
    """Whether a byte of s is in mask, splitting the path."""
    for x in s:
        if x[0] == "l" and any(mask >> b & 1 for b in x[1]):
            return True
    for x in s:
        if x[0] == "s":
            if isinstance(x[1], tuple) and x[1][0] == "unk":
                I.do_taint(st, "search in unknown text")
            k = 0
            for b in range(256):
                o = x[4].t[b]
                if o and any(mask >> c & 1 for c in o):
                    k |= 1 << b
            if st.facts.decide(("has", x[1], x[2], x[3], k)):
                return True
    return False


@m("core::str::<impl str>::contains")
def _(I, st, f, a):
    mk = pattern_mask(I, st, a[1])
    s = text(I, st, a[0])
    if mk is None:
        if type(a[1]) is SV and lit_of(a[1].s) is not None and lit_of(s) is not None:
            return int(lit_of(a[1].s) in lit_of(s))
        return Unk("contains")
    return int(has_byte(I, st, s, mk))


@m("core::str::<impl str>::starts_with")
def _(I, st, f, a):
    s = text(I, st, a[0])
    if type(a[1]) is SV:
        p = lit_of(a[1].s)
        if p is not None:
            l = s[0][1] if s and s[0][0] == "l" else b""
            n = min(len(l), len(p))
            if l[:n] != p[:n]:
                return 0
            if len(p) <= len(l):
                return 1
            if len(s) <= 1 and (not s or s[0][0] == "l"):
                return 0
            if len(s) == 1:
                # order: p <= s < p+1
                if not st.facts.decide(("<=", lit(p), s)):
                    return 0
                q = p[:-1] + bytes([p[-1] + 1])
                return int(st.facts.decide(("<", s, lit(q))))
    mk = pattern_mask(I, st, a[1])
    if mk is not None and s and s[0][0] == "l":
        return mk >> s[0][1][0] & 1
    if mk is not None and not s:
        return 0
    return Unk("starts_with")


@m("core::str::<impl str>::is_ascii", "core::slice::ascii::<impl [u8]>::is_ascii")
def _(I, st, f, a):
    hi = FULL & ~((1 << 128) - 1)
    return int(not has_byte(I, st, text(I, st, a[0]), hi))


# ---------------------------------------------------------------------------- numbers ----------
@m(r"~^core::num::<impl u8>::is_ascii$", "~^core::num::<impl u8>::is_ascii_")
def _(I, st, f, a):
    v = deref_all(I, st, a[0])
    k = f["def"].rsplit("::", 1)[1]
    fn = {"is_ascii": lambda c: c < 128, "is_ascii_alphanumeric": lambda c: chr(c).isalnum() and c < 128, "is_ascii_digit": lambda c: 48 <= c < 58,
          "is_ascii_alphabetic": lambda c: c < 128 and chr(c).isalpha(), "is_ascii_uppercase": lambda c: 65 <= c <= 90, "is_ascii_lowercase": lambda c: 97 <= c <= 122,
          "is_ascii_graphic": lambda c: 33 <= c <= 126, "is_ascii_punctuation": lambda c: 33 <= c <= 126 and not chr(c).isalnum(),
          "is_ascii_hexdigit": lambda c: chr(c) in "0123456789abcdefABCDEF", "is_ascii_control": lambda c: c < 32 or c == 127, "is_ascii_whitespace": lambda c: c in b" \t\n\r\x0c"}.get(k)
    if fn is None:
        return Unk(k)
    if isinstance(v, int):
        return int(fn(v))
    if type(v) is Tab:
        return I.mktab(v, [None if x is None else int(fn(x)) for x in v.t])
    return Unk(k)


@m("~^core::num::nonzero::NonZero::<T>::(get|new_unchecked)$", "~^std::num::NonZero::<T>::(get|new_unchecked)$", "~NonZero::<T>::(get|new_unchecked)$")
def _(I, st, f, a):
    v = a[0]
    while type(v) is Agg and v.fs:
        v = v.fs[0]
    return v if f["def"].endswith("get") else Agg(0, (v,))


@m("~NonZero::<T>::new$")
def _(I, st, f, a):
    v = a[0]
    if isinstance(v, (int, Lin)):
        return NONE if st.facts.decide(("eq", v)) else some(Agg(0, (v,)))
    return Unk("NonZero")


# ---------------------------------------------------------------------------- intrinsics -------
@m("intrinsic:is_val_statically_known", "intrinsic:ub_checks")
def _(I, st, f, a):
    return 0


@m("intrinsic:cold_path", "intrinsic:assume", "~::precondition_check$", "std::hint::assert_unchecked", "intrinsic:assert_inhabited", "intrinsic:assert_zero_valid",
   "core::ub_checks::check_language_ub", "std::hint::black_box", "~^std::rt::")
def _(I, st, f, a):
    return UNIT


@m("intrinsic:discriminant_value")
def _(I, st, f, a):
    return I.discr(deref(I, st, a[0]), f["args"][0])


@m("intrinsic:size_of", "intrinsic:min_align_of", "intrinsic:align_of", "intrinsic:size_of_val")
def _(I, st, f, a):
    t = argty(I, f)
    if f["iname"] == "size_of" and "size" in t:
        return t["size"]
    return Unk("size")


@m("intrinsic:transmute", "intrinsic:transmute_unchecked", "std::mem::transmute")
def _(I, st, f, a):
    return I.transmute(st, a[0], f["args"][0], f["args"][1])


@m("intrinsic:wrapping_add", "intrinsic:wrapping_sub", "intrinsic:wrapping_mul", "intrinsic:unchecked_add", "intrinsic:unchecked_sub", "intrinsic:unchecked_mul", "intrinsic:unchecked_shl", "intrinsic:unchecked_shr",
   "intrinsic:exact_div", "intrinsic:unchecked_div", "intrinsic:unchecked_rem")
def _(I, st, f, a):
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "shr": "Shr", "div": "Div", "rem": "Rem"}[f["iname"].split("_")[1]]
    return I.binop(st, op, a[0], a[1], f["args"][0])


@m("intrinsic:three_way_compare")
def _(I, st, f, a):
    return I.binop(st, "Cmp", a[0], a[1], f["args"][0])


# ---------------------------------------------------------------------------- panics -----------
@m("core::panicking::panic", "core::panicking::panic_nounwind", "std::rt::begin_panic", "core::panicking::panic_explicit", "std::panicking::begin_panic", "std::option::expect_failed", "core::panicking::panic_str_2015",
   "core::option::expect_failed")
def _(I, st, f, a):
    l = lit_of(text(I, st, a[0])) if a else b""
    raise Panic((l or b"?").decode("utf-8", "replace"))


@m("core::panicking::panic_fmt", "core::panicking::panic_nounwind_fmt", "std::rt::panic_fmt", "core::panicking::panic_display")
def _(I, st, f, a):
    v = a[0]
    while type(v) is Ptr:
        v = deref(I, st, v)
    if type(v) is Op and v.k == "fmtargs":
        raise Panic("".join(p[1].decode("utf-8", "replace") if p[0] == "lit" else "{}" for p in v.a[0]))
    raise Panic("?")


@m("~^std::result::unwrap_failed", "~^core::result::unwrap_failed")
def _(I, st, f, a):
    l = lit_of(text(I, st, a[0]))
    raise Panic("%s: called on an Err value" % (l or b"?").decode("utf-8", "replace"))


@m("std::option::unwrap_failed", "core::option::unwrap_failed")
def _(I, st, f, a):
    raise Panic("called `Option::unwrap()` on a `None` value")


@m("~^core::panicking::(panic_bounds_check|panic_const|assert_failed)", "~slice_index_fail$", "~^core::slice::index::slice_", "~^core::str::slice_error_fail", "~copy_from_slice.*len_mismatch", "~len_mismatch_fail")
def _(I, st, f, a):
    raise Panic(f["def"].rsplit("::", 1)[1])


# ---------------------------------------------------------------------------- percent-encoding --
@m("<percent_encoding::PercentEncode<'_> as std::fmt::Display>::fmt", "<percent_encoding::PercentEncode<'a> as std::fmt::Display>::fmt")
def _(I, st, f, a):
    v = deref_all(I, st, a[0])
    s, h = text(I, st, v.fs[0]), pe_h(I, st, v.fs[1])
    if I.entry.startswith("e_c14") and len(s) == 1 and s[0][0] == "s":
        # percent-encoding writes in pieces: here, two of them, split anywhere
        x = s[0]
        k = sym(st.fresh("split"))
        F = st.facts.assume(("ge", lsub(k, x[2])), True)
        F = F and F.assume(("ge", lsub(x[3], k)), True)
        if F is None:
            raise Stop("split")
        st.facts = F
        return Call(I.models.fn_by_def(I, "witness::shims::two_pieces"), [a[1], SV(apply(h, (("s", x[1], x[2], k, x[4]),))), SV(apply(h, (("s", x[1], k, x[3], x[4]),)))])
    return fwrite(I, st, a[1], apply(h, s))


def pe_h(I, st, p):
    set_ = deref_all(I, st, p)
    words = set_.fs[0]
    w = words.fs if type(words) is Agg else None
    if w is None or not all(isinstance(x, int) for x in w):
        raise Stop("ascii set")
    t = []
    for b in range(256):
        e = b >= 128 or w[b // 32] >> (b % 32) & 1
        t.append(b"%%%02X" % b if e else bytes([b]))
    return mkH(t)


@m("~^std::cmp::PartialOrd::(lt|le|gt|ge)$")
def _(I, st, f, a):
    x, y = deref_all(I, st, a[0]), deref_all(I, st, a[1])
    if type(x) not in (SV, Buf) or type(y) not in (SV, Buf):
        return FALL
    c = cmp3(I, st, x.s, y.s)
    return int({"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[f["def"][-2:]])
