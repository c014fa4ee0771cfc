"""More of the standard library: raw element pointers, searches in text, conversions."""
from models import *
from models import text, deref, deref_all, m, setbuf, eqs, cmp3, is_u8, argty, char_seq, bytes_like
from lib_slice import slen_of, sub, elem
from lib_vec import loc, vec, put, bytes_, plain as is_plain
from interp import thin, at, bare, isptr

OLD = dict(EX)


# ---- pointers -----------------------------------------------------------------------------------
@m(r"~^core::str::<impl str>::as_(mut_)?ptr$", r"~^core::slice::<impl \[T\]>::as_(mut_)?ptr$", r"~^std::vec::Vec::<T, A>::as_(mut_)?ptr$")
def _(I, st, f, a):
    v = a[0]
    if "vec::Vec" in f["def"]:
        x = deref_all(I, st, v)
        if type(x) is Buf and not f["def"].endswith("mut_ptr"):
            return at(SV(x.s))
        cur = loc(I, st, v)
        if cur[0] == "loc":
            return Ptr(cur[1], cur[2], ("el", 0))
    r = at(v)
    if r is not None:
        return r
    if type(v) is Ptr:
        x = deref_all(I, st, v)
        if type(x) is Buf and not f["def"].endswith("mut_ptr"):
            return at(SV(x.s))
    return Unk("pointer")


def el_text(I, st, p, n):
    """The n bytes at a pointer"""
    p = bare(p)
    p = at(p) or p
    if type(p) is Op and p.k == "at":
        return I.slice(st, p.a[0], p.a[1], ladd(p.a[1], n))
    if type(p) is Ptr and p.meta and p.meta[0] == "el":
        x = I.read(st, p.key, p.path)
        if type(x) is Buf:
            return I.slice(st, x.s, p.meta[1], ladd(p.meta[1], n))
    if type(p) is Ptr and p.meta is None:
        x = I.read(st, p.key, p.path)
        if type(x) is Buf:
            return I.slice(st, x.s, 0, n)
        if isinstance(x, (int, Tab)) and n == 1:
            return I.byte_seq(x)
    return None


@m("intrinsic:ptr_offset_from_unsigned", "intrinsic:ptr_offset_from")
def _(I, st, f, a):
    x, y = at(bare(a[0])), at(bare(a[1]))
    if x is not None and type(x) is type(y):
        if type(x) is Op and x.a[0] == y.a[0]:
            return lsub(x.a[1], y.a[1])
        if type(x) is Ptr and (x.key, x.path) == (y.key, y.path):
            return lsub(x.meta[1], y.meta[1])
    return Unk("pointer difference")


@m("intrinsic:compare_bytes")
def _(I, st, f, a):
    n = a[2]
    if not isinstance(n, (int, Lin)):
        return Unk("comparison")
    x, y = el_text(I, st, a[0], n), el_text(I, st, a[1], n)
    if x is None or y is None:
        return Unk("comparison")
    if st.facts.same(x, y) is not True and (lit_of(x) is None or lit_of(y) is None):
        # nothing relates the order of parts to that of the whole
        I.do_taint(st, "comparison of parts")
    return cmp3(I, st, x, y)


def same_values(I, st, x, y):
    """Equality of plain values, or None"""
    if type(x) in (SV, Buf) and type(y) in (SV, Buf):
        return eqs(I, st, x.s, y.s)
    if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)):
        return bool(st.facts.decide(("eq", lsub(x, y))))
    if type(x) is Agg and type(y) is Agg:
        if x.v != y.v or len(x.fs) != len(y.fs):
            return None
        for p, q in zip(x.fs, y.fs):
            r = same_values(I, st, p, q)
            if r is not True:
                return r
        return True
    return None


@m("intrinsic:raw_eq")
def _(I, st, f, a):
    r = same_values(I, st, deref_all(I, st, a[0]), deref_all(I, st, a[1]))
    return Unk("raw_eq") if r is None else int(r)


def elems_at(I, st, p, n):
    """The n values at an element pointer"""
    p = bare(p)
    p = at(p) or p
    if not isinstance(n, int):
        return None
    if type(p) is Op and p.k == "at" or type(p) is Ptr:
        x = I.read(st, p.key, p.path) if type(p) is Ptr else None
        if type(x) is Agg and p.meta and p.meta[0] == "el" and isinstance(p.meta[1], int):
            r = x.fs[p.meta[1]:p.meta[1] + n]
            return r if len(r) == n else None
        if type(x) is Agg and p.meta is None and len(x.fs) >= n:
            return x.fs[:n]
    return None


@m(r"~core::slice::cmp::SlicePartialEq<.*>>::(equal|equal_same_length)$")
def _(I, st, f, a):
    if f["def"].endswith("equal"):
        x, y = a
        n, k = slen_of(I, st, x), slen_of(I, st, y)
        if not st.facts.decide(("eq", lsub(n, k))):
            return 0
    else:
        x, y, n = a
        if isinstance(y, (int, Lin)):
            raise Stop("slice comparison")
    s, t = el_text(I, st, x, n), el_text(I, st, y, n)
    if s is not None and t is not None:
        return int(eqs(I, st, s, t))
    p, q = elems_at(I, st, x, n), elems_at(I, st, y, n)
    if p is not None and q is not None and all(is_plain(e) for e in p + q):
        r = same_values(I, st, Agg(0, p), Agg(0, q))
        if r is not None:
            return int(r)
    return FALL


# ---- raw copies ---------------------------------------------------------------------------------
def raw_copy(I, st, src, dst, n):
    src, dst = bare(src), bare(dst)
    if isinstance(n, int) and n == 0:
        return UNIT
    s = el_text(I, st, src, n) if isinstance(n, (int, Lin)) else None
    if type(dst) is Ptr:
        x = I.read(st, dst.key, dst.path)
        i = dst.meta[1] if dst.meta else 0
        if dst.meta and dst.meta[0] not in ("el", "sl"):
            raise Stop("raw copy")
        if s is not None and type(x) is Buf:
            k = length(x.s)
            if not st.facts.decide(("ge", lsub(k, ladd(i, n)))):
                raise Stop("raw copy")
            I.store(st, ("loc", dst.key, dst.path, None), Buf(cat(I.slice(st, x.s, 0, i), s, I.slice(st, x.s, ladd(i, n), k))))
            return UNIT
        es = elems_at(I, st, src, n)
        if es is not None and type(x) is Agg and dst.meta and isinstance(i, int) and i + n <= len(x.fs):
            I.store(st, ("loc", dst.key, dst.path, None), Agg(x.v, x.fs[:i] + es + x.fs[i + n:]))
            return UNIT
        if n == 1 and type(src) is Ptr and (not dst.meta or dst.meta[0] == "el") and (not src.meta or src.meta[0] == "el"):
            I.store(st, I.deref(st, dst), I.load(st, I.deref(st, src)))
            return UNIT
    raise Stop("raw copy")


Models.copy = lambda self, I, st, src, dst, n: raw_copy(I, st, src, dst, n)


@m("intrinsic:copy", "intrinsic:copy_nonoverlapping")
def _(I, st, f, a):
    return raw_copy(I, st, a[0], a[1], a[2])


@m("intrinsic:write_bytes")
def _(I, st, f, a):
    dst, b, n = bare(a[0]), a[1], a[2]
    if isinstance(n, int) and isinstance(b, int) and type(dst) is Ptr:
        x = I.read(st, dst.key, dst.path)
        i = dst.meta[1] if dst.meta else 0
        if type(x) is Buf and isinstance(i, int):
            k = length(x.s)
            I.store(st, ("loc", dst.key, dst.path, None), Buf(cat(I.slice(st, x.s, 0, i), lit(bytes([b]) * n), I.slice(st, x.s, i + n, k))))
            return UNIT
    raise Stop("raw fill")


# ---- integers -----------------------------------------------------------------------------------
def bits_of(I, f):
    return I.ity(f["args"][0])


@m("intrinsic:saturating_add", "intrinsic:saturating_sub")
def _(I, st, f, a):
    b, sg = bits_of(I, f)
    x, y = a
    lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if sg else (0, (1 << b) - 1)
    sub_ = f["iname"].endswith("sub")
    if isinstance(x, int) and isinstance(y, int):
        return max(lo, min(hi, x - y if sub_ else x + y))
    if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) and not sg:
        if not sub_:
            return ladd(x, y)
        return lsub(x, y) if st.facts.decide(("ge", lsub(x, y))) else 0
    return Unk(f["iname"])


@m("intrinsic:ctlz", "intrinsic:cttz", "intrinsic:ctpop", "intrinsic:bswap", "intrinsic:ctlz_nonzero", "intrinsic:cttz_nonzero", "intrinsic:bitreverse")
def _(I, st, f, a):
    b, _ = bits_of(I, f)

    def g(x):
        x &= (1 << b) - 1
        k = f["iname"]
        if k.startswith("ctlz"):
            return b - x.bit_length()
        if k.startswith("cttz"):
            return b if x == 0 else (x & -x).bit_length() - 1
        if k == "ctpop":
            return bin(x).count("1")
        if k == "bitreverse":
            return int(bin(x)[2:].rjust(b, "0")[::-1], 2)
        return int.from_bytes(x.to_bytes(b // 8, "little"), "big")
    if isinstance(a[0], int):
        return g(a[0])
    if type(a[0]) is Tab:
        return I.mktab(a[0], [None if x is None else g(x) for x in a[0].t])
    return Unk(f["iname"])


@m("intrinsic:rotate_left", "intrinsic:rotate_right")
def _(I, st, f, a):
    b, sg = bits_of(I, f)
    if isinstance(a[0], int) and isinstance(a[1], int):
        k = a[1] % b if f["iname"].endswith("left") else -a[1] % b
        x = a[0] & (1 << b) - 1
        return I.wrap(x << k | x >> b - k, b, sg)
    return Unk(f["iname"])


@m("intrinsic:select_unpredictable")
def _(I, st, f, a):
    if isinstance(a[0], int):
        return a[1] if a[0] else a[2]
    return FALL if "body" in f else Unk("select")


@m("intrinsic:add_with_overflow", "intrinsic:sub_with_overflow", "intrinsic:mul_with_overflow")
def _(I, st, f, a):
    return Agg(0, I.binop(st, f["iname"].split("_")[0].capitalize(), a[0], a[1], f["args"][0], True))


@m("intrinsic:align_of_val")
def _(I, st, f, a):
    return 1


@m("intrinsic:size_of_val")
def _(I, st, f, a):
    t = argty(I, f)
    if t is None:
        return Unk("size")
    if "size" in t:
        return t["size"]
    if t["k"] == "str" or t["k"] == "slice" and is_u8(I.p.types[t["elem"]]):
        return slen_of(I, st, a[0])
    if t["k"] == "slice" and isinstance(I.p.types[t["elem"]].get("size"), int):
        return lscale(slen_of(I, st, a[0]), I.p.types[t["elem"]]["size"])
    return Unk("size")


# ---- characters ---------------------------------------------------------------------------------
def lit_text(I, st, v):
    """The literal content of a text, decoded; or None"""
    l = lit_of(text(I, st, v))
    if l is None:
        return None
    try:
        return l.decode()
    except UnicodeDecodeError:
        return None


def ascii_only(st, s):
    for x in s:
        if x[0] == "l":
            if any(b >= 128 for b in x[1]):
                return False
        else:
            mk = st.facts.mask_range(x[1], x[2], x[3])
            if not all(x[4].t[b] is not None and all(c < 128 for c in x[4].t[b]) for b in mask_bytes(mk)):
                return False
    return True


@m("core::str::count::do_count_chars", "core::str::count::char_count_general_case", "core::str::count::count_chars")
def _(I, st, f, a):
    s = text(I, st, a[0])
    l = lit_of(s)
    if l is not None:
        return sum(b & 0xC0 != 0x80 for b in l)
    if ascii_only(st, s):
        return length(s)
    return Unk("number of characters")


SIMPLE = {
    "is_alphabetic": str.isalpha, "is_numeric": str.isnumeric, "is_alphanumeric": str.isalnum, "is_whitespace": lambda c: c.isspace() and c not in "\x1c\x1d\x1e\x1f",
    "is_uppercase": str.isupper, "is_lowercase": str.islower, "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160,
}


@m(r"~^core::char::methods::<impl char>::(is_alphabetic|is_numeric|is_alphanumeric|is_whitespace|is_uppercase|is_lowercase|is_control)$")
def _(I, st, f, a):
    g = SIMPLE[f["def"].rsplit("::", 1)[1]]
    v = a[0]
    if isinstance(v, int):
        return int(g(chr(v)))
    if type(v) is Tab:
        return I.mktab(v, [None if x is None or not isinstance(x, int) else int(g(chr(x))) for x in v.t])
    return Unk("character class")


@m(r"~^core::unicode::unicode_data::(\w+)::lookup(_slow)?$")
def _(I, st, f, a):
    k = f["def"].split("::")[-2]
    g = {"alphabetic": str.isalpha, "n": str.isnumeric, "uppercase": str.isupper, "lowercase": str.islower, "white_space": str.isspace}.get(k)
    if g and isinstance(a[0], int):
        return int(g(chr(a[0])))
    return Unk("character class")


@m(r"~^std::str::<impl str>::to_(upper|lower)case$", r"~^std::str::<impl str>::to_ascii_(upper|lower)case$", r"~^core::str::<impl str>::to_ascii_(upper|lower)case$", r"~^std::slice::<impl \[u8\]>::to_ascii_(upper|lower)case$")
def _(I, st, f, a):
    s = text(I, st, a[0])
    up = "upper" in f["def"]
    if "ascii" not in f["def"]:
        l = lit_text(I, st, a[0])
        if l is not None:
            return Buf(lit(l.upper() if up else l.lower()))
        if not ascii_only(st, s):
            return Buf(I.unk_seq(st, "change of case"))
    return Buf(apply(UPPER if up else LOWER, s))


UPPER = mkH([bytes([i]).upper() for i in range(256)], "upper")
LOWER = mkH([bytes([i]).lower() for i in range(256)], "lower")


@m(r"~^core::str::<impl str>::make_ascii_(upper|lower)case$", r"~^core::slice::ascii::<impl \[u8\]>::make_ascii_(upper|lower)case$")
def _(I, st, f, a):
    h = UPPER if "upper" in f["def"] else LOWER
    s = text(I, st, a[0])
    I.store(st, I.deref(st, a[0]), Buf(apply(h, s)))
    return UNIT


@m(r"~^core::str::<impl str>::eq_ignore_ascii_case$", r"~^core::slice::ascii::<impl \[u8\]>::eq_ignore_ascii_case$")
def _(I, st, f, a):
    return int(eqs(I, st, apply(LOWER, text(I, st, a[0])), apply(LOWER, text(I, st, a[1]))))


@m("std::string::String::from_utf8_lossy", "std::string::String::from_utf8_lossy_owned")
def _(I, st, f, a):
    s = text(I, st, a[0])
    l = lit_of(s)
    own = f["def"].endswith("owned")
    if l is not None:
        t = l.decode("utf-8", "replace").encode()
        if own:
            return Buf(lit(t))
        return Agg(0, (SV(s),)) if t == l else Agg(1, (Buf(lit(t)),))
    import lib_unsafe
    if lib_unsafe.utf8(st, s)[0] is True:
        return Buf(s) if own else Agg(0, (SV(s),))
    return Unk("lossy conversion")


# ---- searches -----------------------------------------------------------------------------------
def first_in(I, st, s, mask):
    """The position of the first byte of s in mask, splitting the path; None if there is none."""
    pos = 0
    F = st.facts
    for x in s:
        if x[0] == "l":
            for i, b in enumerate(x[1]):
                if mask >> b & 1:
                    return ladd(pos, i)
            pos = ladd(pos, len(x[1]))
            continue
        if isinstance(x[1], tuple) and x[1][0] == "unk":
            I.do_taint(st, "search in unknown text")
        k = 0
        for b in range(256):
            o = x[4].t[b]
            if o and any(mask >> c & 1 for c in o):
                k |= 1 << b
        if st.facts.decide(("has", x[1], x[2], x[3], k)):
            if not x[4].one:
                raise Stop("position in encoded text")
            i = sym(st.fresh("pos"))
            F = st.facts
            for c, v in ((("ge", lsub(i, x[2])), True), (("ge", lsub(x[3], ladd(i, 1))), True), (("in", x[1], i, k), True), (("has", x[1], x[2], i, k), False)):
                F = F and F.assume(c, v)
            if F is None:
                raise Stop("position", quiet=True)
            st.facts = F
            return ladd(pos, lsub(i, x[2]))
        pos = ladd(pos, alen(x))
    return None


@m("core::slice::memchr::memchr", "core::slice::memchr::memchr_aligned", "core::slice::memchr::memchr_naive")
def _(I, st, f, a):
    b, s = a[0], text(I, st, a[1])
    if not isinstance(b, int):
        raise Stop("search for an unknown byte")
    i = first_in(I, st, s, 1 << b)
    return NONE if i is None else some(i)


@m("core::slice::memchr::memrchr", "core::slice::memchr::memrchr_aligned")
def _(I, st, f, a):
    b, s = a[0], text(I, st, a[1])
    if not isinstance(b, int):
        raise Stop("search for an unknown byte")
    l = lit_of(s)
    if l is not None:
        i = l.rfind(bytes([b]))
        return NONE if i < 0 else some(i)
    if not has_byte(I, st, s, 1 << b):
        return NONE
    raise Stop("last position in unknown text")


@m("core::str::<impl str>::find")
def _(I, st, f, a):
    s = text(I, st, a[0])
    mk = pattern_mask(I, st, a[1])
    if mk is not None:
        i = first_in(I, st, s, mk)
        return NONE if i is None else some(i)
    return FALL


@m("core::str::<impl str>::ends_with")
def _(I, st, f, a):
    s = text(I, st, a[0])
    mk = pattern_mask(I, st, a[1])
    if mk is not None:
        n = length(s)
        if st.facts.decide(("eq", n)):
            return 0
        b = I.byte_at(st, s, lsub(n, 1))
        if isinstance(b, int):
            return mk >> b & 1
        if type(b) is Tab:
            bad = 0
            for c in range(256):
                if b.t[c] is not None and mk >> b.t[c] & 1:
                    bad |= 1 << c
            return int(st.facts.decide(("in", b.name, b.i, bad)))
        return Unk("ends_with")
    if type(a[1]) is SV:
        return edge(I, st, s, a[1].s, True)
    return FALL


def edge(I, st, s, p, end):
    """Whether the text s starts (ends) with p"""
    n, k = length(s), length(p)
    if not st.facts.decide(("ge", lsub(n, k))):
        return 0
    part = I.slice(st, s, lsub(n, k), n) if end else I.slice(st, s, 0, k)
    return int(eqs(I, st, part, p))


@m("core::str::<impl str>::starts_with")
def _(I, st, f, a):
    s = text(I, st, a[0])
    mk = pattern_mask(I, st, a[1])
    if mk is not None and type(a[1]) is not SV:
        if st.facts.decide(("eq", length(s))):
            return 0
        b = I.byte_at(st, s, 0)
        if isinstance(b, int):
            return mk >> b & 1
        if type(b) is Tab:
            k = 0
            for c in range(256):
                if b.t[c] is not None and mk >> b.t[c] & 1:
                    k |= 1 << c
            return int(st.facts.decide(("in", b.name, b.i, k)))
        return Unk("starts_with")
    if type(a[1]) is SV:
        return edge(I, st, s, a[1].s, False)
    return FALL


@m("core::str::<impl str>::strip_prefix", "core::str::<impl str>::strip_suffix")
def _(I, st, f, a):
    s = text(I, st, a[0])
    end = f["def"].endswith("suffix")
    p = a[1]
    if isinstance(p, int) and p < 128:
        p = SV(lit(chr(p)))
    if type(p) is not SV:
        return FALL
    if not edge(I, st, s, p.s, end):
        return NONE
    n, k = length(s), length(p.s)
    return some(SV(I.slice(st, s, 0, lsub(n, k)) if end else I.slice(st, s, k, n)))


@m("core::str::<impl str>::split_once")
def _(I, st, f, a):
    s = text(I, st, a[0])
    mk = pattern_mask(I, st, a[1])
    if mk is None:
        return FALL
    i = first_in(I, st, s, mk)
    if i is None:
        return NONE
    return some(Agg(0, (SV(I.slice(st, s, 0, i)), SV(I.slice(st, s, ladd(i, 1), length(s))))))


# a searcher for a string pattern in literal text: haystack, needle, front, back, positions
@m("std::str::pattern::StrSearcher::<'a, 'b>::new")
def _(I, st, f, a):
    h, n = lit_of(text(I, st, a[0])), lit_of(text(I, st, a[1]))
    if h is None or n is None:
        raise Stop("search for a text in unknown text")
    return Op("search", h, n, 0, len(h), 0)


def searcher(I, st, p):
    v = p
    q = None
    while type(v) is Ptr:
        q, v = v, I.read(st, v.key, v.path)
    if type(v) is Op and v.k == "search":
        return q, v.a
    raise Stop("searcher")


def on_boundary(h, i):
    return i >= len(h) or h[i] & 0xC0 != 0x80


@m(r"~^<std::str::pattern::StrSearcher<'a, 'b> as std::str::pattern::(Reverse)?Searcher<'a>>::(\w+)$")
def _(I, st, f, a):
    k = f["def"].rsplit("::", 1)[1]
    q, (h, n, lo, hi, done) = searcher(I, st, a[0])
    if k == "haystack":
        return SV(lit(h))
    if n == b"" and k not in ("next_match", "next_match_back"):
        raise Stop("search for the empty text")

    def put_(*x):
        I.store(st, ("loc", q.key, q.path, None), Op("search", *x))
    if k == "next_match":
        if done:
            return NONE
        i = h.find(n, lo)
        if n == b"":
            while not on_boundary(h, i):
                i += 1
        if i < 0 or i > len(h):
            put_(h, n, lo, hi, 1)
            return NONE
        if n == b"":
            j = i + 1
            while not on_boundary(h, j):
                j += 1
            put_(h, n, j, hi, int(i >= len(h)))
            return some(Agg(0, (i, i)))
        put_(h, n, i + len(n), hi, 0)
        return some(Agg(0, (i, i + len(n))))
    if k == "next_match_back":
        if n == b"":
            raise Stop("search for the empty text")
        i = h.rfind(n, 0, hi)
        if i < 0:
            return NONE
        put_(h, n, lo, i, 0)
        return some(Agg(0, (i, i + len(n))))
    if k == "next_reject":
        while lo < len(h) and h.startswith(n, lo):
            lo += len(n)
        if lo >= len(h):
            put_(h, n, lo, hi, 0)
            return NONE
        e = lo + 1
        while not on_boundary(h, e):
            e += 1
        put_(h, n, e, hi, 0)
        return some(Agg(0, (lo, e)))
    if k == "next_reject_back":
        while hi > 0 and h.endswith(n, 0, hi):
            hi -= len(n)
        if hi <= 0:
            put_(h, n, lo, hi, 0)
            return NONE
        b = hi - 1
        while not on_boundary(h, b):
            b -= 1
        put_(h, n, lo, b, 0)
        return some(Agg(0, (b, hi)))
    raise Stop("searcher")


# ---- byte vectors and strings -------------------------------------------------------------------
def conc(*x):
    return all(isinstance(i, int) for i in x)


@m("std::str::<impl str>::repeat", "std::slice::<impl [T]>::repeat")
def _(I, st, f, a):
    x = deref_all(I, st, a[0])
    if not isinstance(a[1], int) or a[1] > 10000:
        return Unk("repeat")
    if type(a[0]) is SV or type(x) in (SV, Buf):
        return Buf(cat(*[text(I, st, a[0])] * a[1]))
    if type(x) is Agg and type(a[0]) is Ptr and a[0].meta and a[0].meta[0] == "sl" and conc(*a[0].meta[1:]):
        return Agg(0, x.fs[a[0].meta[1]:a[0].meta[2]] * a[1])
    raise Stop("repeat")


@m("std::string::String::remove")
def _(I, st, f, a):
    s = text(I, st, a[0])
    l, i = lit_of(s), a[1]
    if l is not None and isinstance(i, int):
        if i >= len(l) or not on_boundary(l, i):
            raise Panic("cannot remove a char from the end of a string")
        c = l[i:].decode("utf-8", "replace")[0]
        setbuf(I, st, a[0], lit(l[:i] + l[i + len(c.encode()):]))
        return ord(c)
    n = length(s)
    if not st.facts.decide(("ge", lsub(n, ladd(i, 1)))):
        raise Panic("cannot remove a char from the end of a string")
    b = I.byte_at(st, s, i)
    if isinstance(b, int) and b < 128:
        setbuf(I, st, a[0], cat(I.slice(st, s, 0, i), I.slice(st, s, ladd(i, 1), n)))
        return b
    raise Stop("removal of a character")


@m("std::string::String::insert")
def _(I, st, f, a):
    s, i = text(I, st, a[0]), a[1]
    n = length(s)
    if not st.facts.decide(("ge", lsub(n, i))):
        raise Panic("insertion index")
    setbuf(I, st, a[0], cat(I.slice(st, s, 0, i), char_seq(I, st, a[2]), I.slice(st, s, i, n)))
    return UNIT


@m("std::string::String::split_off", "std::vec::Vec::<T, A>::split_off")
def _(I, st, f, a):
    x, i = deref_all(I, st, a[0]), a[1]
    if type(x) is Agg:
        if not isinstance(i, int):
            raise Stop("split_off")
        if i > len(x.fs):
            raise Panic("`at` split index")
        put(I, st, a[0], x.fs[:i])
        return Agg(0, x.fs[i:])
    s = text(I, st, a[0])
    n = length(s)
    if not st.facts.decide(("ge", lsub(n, i))):
        raise Panic("`at` split index")
    setbuf(I, st, a[0], I.slice(st, s, 0, i))
    return Buf(I.slice(st, s, i, n))


def rng_of(I, st, f, r, n):
    """The bounds of a range argument"""
    from lib_slice import rng
    for t in f["args"]:
        if isinstance(t, int) and I.p.types[t]["k"] == "adt" and "Range" in I.p.types[t].get("name", ""):
            return rng(I, st, r, t, n)
    raise Stop("range")


@m("std::string::String::replace_range")
def _(I, st, f, a):
    s = text(I, st, a[0])
    n = length(s)
    lo, hi, good = rng_of(I, st, f, a[1], n)
    if not good:
        raise Panic("range out of bounds")
    setbuf(I, st, a[0], cat(I.slice(st, s, 0, lo), text(I, st, a[2]), I.slice(st, s, hi, n)))
    return UNIT


@m("std::string::String::drain", "std::vec::Vec::<T, A>::drain")
def _(I, st, f, a):
    x = deref_all(I, st, a[0])
    if type(x) is Agg:
        lo, hi, good = rng_of(I, st, f, a[1], len(x.fs))
        if not good:
            raise Panic("range out of bounds")
        put(I, st, a[0], x.fs[:lo] + x.fs[hi:])
        return Op("vecit", x.fs[lo:hi])
    s = text(I, st, a[0])
    n = length(s)
    lo, hi, good = rng_of(I, st, f, a[1], n)
    if not good:
        raise Panic("range out of bounds")
    setbuf(I, st, a[0], cat(I.slice(st, s, 0, lo), I.slice(st, s, hi, n)))
    d = I.slice(st, s, lo, hi)
    if "String" in f["def"]:
        return Op("chdrain", d)
    l = lit_of(d)
    if l is None:
        raise Stop("drain of unknown bytes")
    return Op("vecit", tuple(l))


@m(r"~^<std::string::Drain<'_> as std::iter::Iterator>::(next|size_hint)$", r"~^<std::string::Drain<'_> as std::iter::DoubleEndedIterator>::next_back$", r"~^std::string::Drain::<'a>::as_str$")
def _(I, st, f, a):
    q, v = None, a[0]
    while type(v) is Ptr:
        q, v = v, I.read(st, v.key, v.path)
    if type(v) is not Op or v.k != "chdrain":
        raise Stop("drain")
    k = f["def"].rsplit("::", 1)[1]
    if k == "as_str":
        return SV(v.a[0])
    if k == "size_hint":
        return Agg(0, (0, NONE))
    l = lit_of(v.a[0])
    if l is None:
        raise Stop("drain of unknown text")
    t = l.decode("utf-8", "replace")
    if not t:
        return NONE
    c, t = (t[0], t[1:]) if k == "next" else (t[-1], t[:-1])
    I.store(st, ("loc", q.key, q.path, None), Op("chdrain", lit(t)))
    return some(ord(c))


@m("std::vec::Vec::<T, A>::insert", "std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove", "std::vec::Vec::<T, A>::truncate", "std::vec::Vec::<T, A>::clear", "std::vec::Vec::<T, A>::pop",
   "std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::push_mut")
def vec_op(I, st, f, a):
    k = f["def"].rsplit("::", 1)[1]
    if not bytes_(I, f):
        return OLD[f["def"]](I, st, f, a)
    s = text(I, st, a[0])
    n = length(s)
    if k == "clear":
        setbuf(I, st, a[0], ())
        return UNIT
    if k == "truncate":
        if st.facts.decide(("ge", lsub(n, a[1]))):
            setbuf(I, st, a[0], I.slice(st, s, 0, a[1]))
        return UNIT
    if k.startswith("push"):
        b = I.byte_seq(a[1])
        setbuf(I, st, a[0], cat(s, I.unk_seq(st, "byte") if b is None else b))
        return UNIT
    if k == "pop":
        if st.facts.decide(("eq", n)):
            return NONE
        r = I.byte_at(st, s, lsub(n, 1))
        setbuf(I, st, a[0], I.slice(st, s, 0, lsub(n, 1)))
        return some(r)
    i = a[1]
    if k == "insert":
        if not st.facts.decide(("ge", lsub(n, i))):
            raise Panic("insertion index")
        b = I.byte_seq(a[2])
        setbuf(I, st, a[0], cat(I.slice(st, s, 0, i), I.unk_seq(st, "byte") if b is None else b, I.slice(st, s, i, n)))
        return UNIT
    if not st.facts.decide(("ge", lsub(n, ladd(i, 1)))):
        raise Panic("removal index")
    r = I.byte_at(st, s, i)
    if k == "remove":
        setbuf(I, st, a[0], cat(I.slice(st, s, 0, i), I.slice(st, s, ladd(i, 1), n)))
    else:
        e = I.slice(st, s, lsub(n, 1), n)
        setbuf(I, st, a[0], I.slice(st, cat(I.slice(st, s, 0, i), e, I.slice(st, s, ladd(i, 1), n)), 0, lsub(n, 1)))
    return r


@m("std::string::String::into_boxed_str", "std::vec::Vec::<T, A>::into_boxed_slice", "std::vec::Vec::<T, A>::leak", "std::string::String::leak")
def _(I, st, f, a):
    v = a[0]
    if type(v) is Buf:
        return SV(v.s)
    if type(v) is Agg:
        return Ptr(st.alloc(v), (), ("sl", 0, len(v.fs)))
    raise Stop("leak")


@m("core::slice::<impl [T]>::reverse", "core::slice::<impl [T]>::rotate_left", "core::slice::<impl [T]>::rotate_right", "core::slice::<impl [T]>::fill")
def _(I, st, f, a):
    k = f["def"].rsplit("::", 1)[1]
    v = a[0]
    cur = I.deref(st, v)
    if cur[0] != "loc":
        raise Stop(k)
    x = I.read(st, cur[1], cur[2])
    lo, hi = (cur[3][1], cur[3][2]) if cur[3] and cur[3][0] == "sl" else (0, slen_of(I, st, v))
    if not conc(lo, hi):
        raise Stop(k + " of unknown length")
    if type(x) is Buf:
        l = lit_of(I.slice(st, x.s, lo, hi))
        if l is None:
            raise Stop(k + " of unknown bytes")
        es = tuple(l)
    elif type(x) is Agg:
        es = x.fs[lo:hi]
    else:
        raise Stop(k)
    n = len(es)
    if k == "reverse":
        es = es[::-1]
    elif k == "fill":
        if not is_plain(a[1]):
            raise Stop("fill")
        es = (a[1],) * n
    else:
        if not isinstance(a[1], int):
            raise Stop(k)
        if a[1] > n:
            raise Panic("assertion failed: mid <= self.len()")
        i = a[1] if k.endswith("left") else n - a[1]
        es = es[i:] + es[:i]
    if type(x) is Buf:
        m_ = length(x.s)
        b = [I.byte_seq(e) for e in es]
        I.store(st, ("loc", cur[1], cur[2], None), Buf(cat(I.slice(st, x.s, 0, lo), *b, I.slice(st, x.s, hi, m_))))
    else:
        I.store(st, ("loc", cur[1], cur[2], None), Agg(x.v, x.fs[:lo] + es + x.fs[hi:]))
    return UNIT


@m("std::vec::Vec::<T, A>::resize")
def _(I, st, f, a):
    n, v = a[1], a[2]
    if not isinstance(n, int) or not is_plain(v):
        raise Stop("resize")
    x = deref_all(I, st, a[0])
    if type(x) is Buf:
        k = length(x.s)
        if not isinstance(k, int):
            raise Stop("resize")
        setbuf(I, st, a[0], I.slice(st, x.s, 0, n) if n <= k else cat(x.s, *[I.byte_seq(v)] * (n - k)))
        return UNIT
    if type(x) is not Agg:
        raise Stop("resize")
    put(I, st, a[0], x.fs[:n] + (v,) * (n - len(x.fs)))
    return UNIT


@m("std::vec::from_elem")
def _(I, st, f, a):
    if not isinstance(a[1], int) or a[1] > 100000 or not is_plain(a[0]):
        raise Stop("vec![x; n]")
    if bytes_(I, f):
        b = I.byte_seq(a[0])
        return Buf(cat(*[b] * a[1])) if lit_of(b) is None else Buf(lit(lit_of(b) * a[1]))
    return Agg(0, (a[0],) * a[1])


# ---- maps: see witness/src/stdshims.rs ---------------------------------------------------------------
@m("std::collections::BTreeMap::<K, V>::new", "std::collections::BTreeSet::<T>::new", "std::collections::HashMap::<K, V>::new", "std::collections::HashSet::<T>::new",
   "std::collections::VecDeque::<T>::new", "std::collections::VecDeque::<T>::with_capacity", "std::collections::HashMap::<K, V>::with_capacity", "std::collections::HashSet::<T>::with_capacity",
   "<std::collections::BTreeMap<K, V> as std::default::Default>::default", "<std::collections::BTreeSet<T> as std::default::Default>::default")
def _(I, st, f, a):
    return Agg(0, ())


@m(r"~^<std::vec::Drain<'(a|_), T(, A)?> as std::iter::(Iterator|DoubleEndedIterator)>::(next|next_back|size_hint)$")
def _(I, st, f, a):
    k = f["def"].rsplit("::", 1)[1]
    return EXRX("<std::vec::IntoIter<T, A> as std::iter::%s>::%s" % ("DoubleEndedIterator" if k == "next_back" else "Iterator", k))(I, st, f, a)


def EXRX(d):
    for rx, g in RX:
        if rx.search(d):
            return g
    raise Stop(d)


# ---- replacing ----------------------------------------------------------------------------------
def may_hold(I, st, s, b):
    """Whether the byte b can occur in s, by the tables of its pieces and the known facts."""
    for x in s:
        if x[0] == "l":
            if b in x[1]:
                return True
        else:
            m = st.facts.mask_range(x[1], x[2], x[3])
            if any(m >> i & 1 and b in (x[4].t[i] or b"") for i in range(256)):
                return True
    return False


@m("std::str::<impl str>::replace", "std::str::<impl str>::replacen")
def _(I, st, f, a):
    s, to = text(I, st, a[0]), text(I, st, a[2])
    n = a[3] if len(a) > 3 else None
    h, t, p = lit_of(s), lit_of(to), a[1]
    if n is not None and not isinstance(n, int):
        return FALL
    if type(p) is Ptr:
        p = deref_all(I, st, p)
    w = lit_of(p.s) if type(p) in (SV, Buf) else chr(p).encode() if isinstance(p, int) and p < 0x110000 else None
    if h is not None and t is not None and w is not None:
        return Buf(lit(h.decode("utf8", "surrogateescape").replace(w.decode(), t.decode(), *(() if n is None else (n,))).encode("utf8", "surrogateescape")))
    mk = pattern_mask(I, st, p)
    if mk is not None and t is not None and n is None:
        return Buf(apply(mkH([t if mk >> i & 1 else bytes([i]) for i in range(256)]), s))
    if w and not may_hold(I, st, s, w[0]):
        return Buf(s)
    return FALL if w is None else stop_unknown()


def stop_unknown():
    raise Stop("replacement in unknown text")


# ---- raw copies ---------------------------------------------------------------------------------
@m("std::vec::Vec::<u8>::append_elements", "std::vec::Vec::<T, A>::append_elements")
def _(I, st, f, a):
    v = a[1]
    if type(v) is SV:
        setbuf(I, st, a[0], cat(text(I, st, a[0]), v.s))
        return UNIT
    n = slen_of(I, st, v)
    if bytes_(I, f) or type(v) is not Ptr or not isinstance(n, int):
        return FALL
    put(I, st, a[0], vec(I, st, a[0]) + tuple(deref_all(I, st, elem(I, st, v, i)) for i in range(n)))
    return UNIT


@m("~as std::slice::<impl \\[T\\]>::to_vec_in::ConvertVec>::to_vec$")
def _(I, st, f, a):
    if type(a[0]) is SV:
        return Buf(a[0].s)
    return FALL


@m(r"~^std::boxed::convert::<impl std::convert::From<&str> for std::boxed::Box<str>>::from$", r"~^std::boxed::convert::<impl std::convert::From<&(mut )?str> for std::boxed::Box<str>>::from$")
def _(I, st, f, a):
    return SV(text(I, st, a[0]))


@m("std::vec::Vec::<T, A>::extend_from_slice")
def _(I, st, f, a):
    return OLD[f["def"]](I, st, f, a) if bytes_like(I, st, a[0]) and bytes_like(I, st, a[1]) else FALL


# ---- state shared by calls ----------------------------------------------------------------------
def cell(I, st, p):
    """The place of the scalar in an atomic, whose pointer may point at a wrapper."""
    cur = I.deref(st, p)
    if cur[0] != "loc":
        raise Stop("atomic behind %s" % cur[0])
    k, path = cur[1], cur[2]
    v = I.read(st, k, path)
    while type(v) is Agg and len(v.fs) == 1:
        path += (0,)
        v = v.fs[0]
    return ("loc", k, path, None), v


ATOMIC = {
    "xchg": lambda v, x: x, "xadd": lambda v, x: v + x, "xsub": lambda v, x: v - x, "and": lambda v, x: v & x, "or": lambda v, x: v | x,
    "xor": lambda v, x: v ^ x, "max": max, "min": min, "umax": max, "umin": min, "nand": lambda v, x: ~(v & x),
}


@m(r"~^(std|core)::intrinsics::atomic_(load|store|cxchg|cxchgweak|xchg|xadd|xsub|and|or|xor|nand|max|min|umax|umin)$")
def _(I, st, f, a):
    k = f["def"].rsplit("_", 1)[1]
    cur, v = cell(I, st, a[0])
    t = argty(I, f)
    bits = t.get("bits") if t["k"] == "uint" else None
    if k == "load":
        return v
    if k == "store":
        I.store(st, cur, a[1])
        return UNIT
    if k.startswith("cxchg"):
        if not (isinstance(v, int) and isinstance(a[1], int)) and v != a[1]:
            raise Stop("comparison of an atomic")
        if v == a[1]:
            I.store(st, cur, a[2])
        return Agg(0, (v, int(v == a[1])))
    if k == "xchg":
        new = a[1]
    elif isinstance(v, int) and isinstance(a[1], int):
        new = ATOMIC[k](v, a[1])
        if bits:
            new &= (1 << bits) - 1
    elif isinstance(v, (int, Lin)) and isinstance(a[1], (int, Lin)) and k in ("xadd", "xsub"):
        new = I.binop(st, "Add" if k == "xadd" else "Sub", v, a[1], f["args"][0])
    elif isinstance(v, (int, Lin)) and isinstance(a[1], (int, Lin)) and k.endswith(("max", "min")):
        less = st.facts.decide(("ge", lsub(a[1], v)))
        new = a[1] if less == k.endswith("max") else v
    else:
        raise Stop("arithmetic on an atomic")
    I.store(st, cur, new)
    return v


OPLEN["num"] = lambda n: n[1]


@m(r"~^(std|core)::num::<impl u(16|32|64|128)>::to_(be|le|ne)_bytes$")
def _(I, st, f, a):
    if not isinstance(a[0], Lin):
        return FALL
    d = f["def"]
    bits = int(re.search(r"impl u(\d+)", d).group(1))
    return Buf(whole(("num", bits // 8, d[-8:-6], a[0])))


@m(r"~^(std|core)::intrinsics::atomic_(single_?thread)?fence$", r"~^std::sys::thread_local::destructors::", r"~^std::sys::thread_local::guard::")
def _(I, st, f, a):
    return UNIT
