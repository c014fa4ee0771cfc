"""Slices, slice iterators, ranges, vectors."""
from models import *
from models import text, deref, deref_all, m, setbuf, eqs, cmp3, is_u8, argty


def slen_of(I, st, v):
    """The length of a slice / str / array reference."""
    if type(v) is Ptr and v.meta and v.meta[0] == "sl":
        return lsub(v.meta[2], v.meta[1])
    if type(v) is SV:
        return length(v.s)
    x = v
    while type(x) is Ptr:
        if x.meta and x.meta[0] == "sl":
            return lsub(x.meta[2], x.meta[1])
        x = I.read(st, x.key, x.path)
    if type(x) in (SV, Buf):
        return length(x.s)
    if type(x) is Agg:
        return len(x.fs)
    if type(x) is Op and x.k in ("vec", "arr"):
        return len(x.a[0])
    if type(x) is Op and x.k == "symlist":
        return x.a[1]
    raise Stop("length of %s" % type(x).__name__)


def ofs(b, x):
    if type(x) is Tab:
        if b == 0:
            return x
        if isinstance(b, int):
            return Tab(x.name, x.i, tuple(None if t is None else t + b for t in x.t))
        raise Stop("offset of a table")
    return ladd(b, x)


def sub(I, st, v, lo, hi, mut=False):
    """v[lo..hi] (in range)."""
    if type(v) is SV:
        return SV(I.slice(st, v.s, lo, hi))
    if type(v) is Ptr:
        b = v.meta[1] if v.meta and v.meta[0] == "sl" else 0
        x = I.read(st, v.key, v.path)
        while type(x) is Ptr and not (v.meta and v.meta[0] == "sl"):
            v = x
            b = v.meta[1] if v.meta and v.meta[0] == "sl" else 0
            x = I.read(st, v.key, v.path)
        if type(x) is SV:
            return SV(I.slice(st, x.s, lo, hi))
        if type(x) is Buf and not mut:
            return SV(I.slice(st, x.s, ofs(b, lo), ofs(b, hi)))
        return Ptr(v.key, v.path, ("sl", ofs(b, lo), ofs(b, hi)))
    if type(v) is Agg and v.fs:
        return sub(I, st, v.fs[0], lo, hi, mut)
    raise Stop("slice of %s" % type(v).__name__)


def elem(I, st, v, i, mut=False):
    """&v[i] (in range)"""
    if type(v) is SV:
        return Ptr(st.alloc(I.byte_at(st, v.s, i)))
    if type(v) is Ptr:
        b = v.meta[1] if v.meta and v.meta[0] == "sl" else 0
        x = I.read(st, v.key, v.path)
        if type(x) is SV:
            return Ptr(st.alloc(I.byte_at(st, x.s, i)))
        if type(x) is Ptr and not v.meta:
            return elem(I, st, x, i, mut)
        if type(x) is Buf and not mut:
            return Ptr(st.alloc(I.byte_at(st, x.s, ladd(b, i))))
        if type(x) is Op and x.k == "symlist":
            return I.models.list_elem(I, st, x, ladd(b, i))
        return Ptr(v.key, v.path + (ladd(b, i),))
    raise Stop("element of %s" % type(v).__name__)


def lname(I, t):
    x = I.p.types[t]
    return x.get("name", x["k"])


def rng(I, st, r, ty, n):
    """(lo, hi, ok) of a range value applied to a length, deciding whether it is in range"""
    k = lname(I, ty)
    F = st.facts
    k = k.rsplit("::", 1)[-1].split("<")[0]
    if k == "RangeFull":
        return 0, n, True
    if k == "Range":
        lo, hi = r.fs[0], r.fs[1]
    elif k == "RangeFrom":
        lo, hi = r.fs[0], n
    elif k == "RangeTo":
        lo, hi = 0, r.fs[0]
    elif k == "RangeToInclusive":
        lo, hi = 0, ladd(r.fs[0], 1)
    elif k == "RangeInclusive":
        lo, hi = r.fs[0], ladd(r.fs[1], 1)
    else:
        raise Stop("range " + k)
    if type(lo) is Tab or type(hi) is Tab:
        # decided on the table
        src = lo if type(lo) is Tab else hi
        mk = st.facts.mask_at(src.name, src.i)
        bad = 0
        for b in mask_bytes(mk):
            x = lo.t[b] if type(lo) is Tab else lo
            y = hi.t[b] if type(hi) is Tab else hi
            if x is None or y is None:
                continue
            if not (isinstance(x, int) and isinstance(y, int) and isinstance(n, int) and 0 <= x <= y <= n):
                bad |= 1 << b
        if bad and F.decide(("in", src.name, src.i, bad)):
            return lo, hi, False
        return lo, hi, True
    if not isinstance(lo, (int, Lin)) or not isinstance(hi, (int, Lin)):
        raise Stop("range of unknown bounds")
    if not F.decide(("ge", lsub(hi, lo))):
        return lo, hi, False
    if not F.decide(("ge", lsub(n, hi))):
        return lo, hi, False
    return lo, hi, True


def arr_len(I, st, f, v):
    return slen_of(I, st, v)


@m("~^core::slice::index::<impl std::ops::Index(Mut)?<I> for \\[T\\]>::index(_mut)?$", "~^(std|core)::array::<impl std::ops::Index(Mut)?<I> for \\[T; N\\]>::index(_mut)?$",
   "~^core::str::traits::<impl std::ops::Index(Mut)?<I> for str>::index(_mut)?$", "~^<std::string::String as std::ops::Index(Mut)?<I>>::index(_mut)?$",
   "~^<std::vec::Vec<T, A> as std::ops::Index(Mut)?<I>>::index(_mut)?$", "~^core::slice::<impl \\[T\\]>::get(_mut)?$", "~^core::str::<impl str>::get(_mut)?$",
   "~^core::slice::<impl \\[T\\]>::get_unchecked(_mut)?$", "~^core::str::<impl str>::get_unchecked(_mut)?$",
   "~^<std::ops::Range(From|To|Full|Inclusive|ToInclusive)?(<usize>)? as std::slice::SliceIndex<(\\[T\\]|str|\\[u8\\])>>::(get|index|get_unchecked)(_mut)?$",
   "~^core::str::traits::<impl std::slice::SliceIndex<str> for std::ops::Range(From|To|Full|Inclusive|ToInclusive)?(<usize>)?>::(get|index|get_unchecked)(_mut)?$",
   "~^core::slice::index::<impl .*SliceIndex.*>::(get|index|get_unchecked)(_mut)?$")
def _(I, st, f, a):
    d = f["def"]
    mut = d.endswith("_mut")
    get = re.search(r"::get(_unchecked)?(_mut)?$", d)
    if "SliceIndex" in d:
        r, v = a[0], a[1]
        name = re.search(r"std::ops::(Range\w*)", d).group(1)
        lo, hi, good = rng_named(I, st, r, name, slen_of(I, st, v))
        ty = None
    else:
        v, r = a[0], a[1]
        n = slen_of(I, st, v)
        ty = None
        for t in f["args"]:
            if isinstance(t, int) and I.p.types[t]["k"] in ("uint", "adt") and (lname(I, t).rsplit("::", 1)[-1].startswith("Range") or (I.p.types[t]["k"] == "uint" and isinstance(r, (int, Lin, Tab)))):
                ty = t
        if isinstance(r, (int, Lin, Tab)):
            if type(r) is Tab:
                raise Stop("table index")
            if not st.facts.decide(("ge", lsub(n, ladd(r, 1)))):
                if get:
                    return NONE
                raise Panic("index out of bounds")
            e = elem(I, st, v, r, mut)
            return some(e) if get and "unchecked" not in d else e
        if ty is None:
            raise Stop("index type")
        lo, hi, good = rng(I, st, r, ty, n)
    if not good:
        if get and "unchecked" not in d:
            return NONE
        raise Panic("slice index out of range")
    s = sub(I, st, v, lo, hi, mut)
    return some(s) if get and "unchecked" not in d else s


def rng_named(I, st, r, name, n):
    class T:
        pass
    save = lname
    globals()["lname"] = lambda I_, t: name
    try:
        return rng(I, st, r, None, n)
    finally:
        globals()["lname"] = save


@m("~^core::slice::<impl \\[T\\]>::split_first(_mut)?$", "~^core::slice::<impl \\[T\\]>::split_last(_mut)?$", "~^core::slice::<impl \\[T\\]>::(first|last)(_mut)?$")
def _(I, st, f, a):
    n = slen_of(I, st, a[0])
    if st.facts.decide(("eq", n)):
        return NONE
    mut = f["def"].endswith("_mut")
    k = f["def"].rsplit("::", 1)[1].replace("_mut", "")
    if k == "first":
        return some(elem(I, st, a[0], 0, mut))
    if k == "last":
        return some(elem(I, st, a[0], lsub(n, 1), mut))
    if k == "split_first":
        r = sub(I, st, a[0], 1, n, mut)
        return some(Agg(0, (elem(I, st, a[0], 0, mut), r)))
    r = sub(I, st, a[0], 0, lsub(n, 1), mut)
    return some(Agg(0, (elem(I, st, a[0], lsub(n, 1), mut), r)))


@m("~^core::slice::<impl \\[T\\]>::split_at(_mut|_unchecked)?$", "~^core::str::<impl str>::split_at$", "~^core::slice::<impl \\[T\\]>::split_at_mut_unchecked$", "~^core::slice::<impl \\[T\\]>::split_at(_mut)?_checked$")
def _(I, st, f, a):
    n = slen_of(I, st, a[0])
    good = st.facts.decide(("ge", lsub(n, a[1])))
    chk = f["def"].endswith("_checked")
    if not good:
        if chk:
            return NONE
        raise Panic("mid > len")
    mut = "mut" in f["def"]
    r = Agg(0, (sub(I, st, a[0], 0, a[1], mut), sub(I, st, a[0], a[1], n, mut)))
    return some(r) if chk else r


# ---- iterators ------------------------------------------------------------------------------
@m("~^core::slice::<impl \\[T\\]>::iter(_mut)?$", "~^(core|std)::slice::iter::<impl std::iter::IntoIterator for &'a (mut )?\\[T\\]>::into_iter$", "~^<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter$",
   "~^(std|core)::array::<impl std::iter::IntoIterator for &'a \\[T; N\\]>::into_iter$", "~^std::slice::Iter::<'a, T>::new$", "~IntoIterator for &'a \\[T(; N)?\\]>::into_iter$")
def _(I, st, f, a):
    mut = "mut" in f["def"].rsplit("::", 1)[1] or "&'a mut" in f["def"]
    v = a[0]
    n = slen_of(I, st, v)
    if not mut or type(v) is SV:
        v = sub(I, st, v, 0, n, False) if not (type(v) is SV) else v
    else:
        v = sub(I, st, v, 0, n, True)
    return Op("iter", v, 0, n, int(mut))


def it_get(I, st, p):
    v, q = p, None
    while type(v) is Ptr:
        q = v
        v = I.read(st, v.key, v.path)
    if type(v) is Op and v.k == "iter":
        return q, v
    if type(v) is Agg and len(v.fs) >= 2:
        # a slice iterator built by inlined library code: its pointer and its end
        from interp import at, bare
        x, y = bare(v.fs[0]), bare(v.fs[1])
        p, e = at(x), at(y)
        if p is not None and e is not None and type(p) is type(e):
            if type(p) is Op and p.a[0] == e.a[0]:
                return q, Op("iter", SV(p.a[0]), p.a[1], e.a[1], 0)
            if type(p) is Ptr and (p.key, p.path) == (e.key, e.path):
                n = e.meta[1]
                return q, Op("iter", Ptr(p.key, p.path, ("sl", 0, n)), p.meta[1], n, 1)
    raise Stop("iterator")


ITER = "~^<std::slice::Iter(Mut)?<'(a|_), T> as std::iter::"


@m(ITER + "Iterator>::next$")
def _(I, st, f, a):
    q, v = it_get(I, st, a[0])
    s, lo, hi, mut = v.a
    if st.facts.decide(("eq", lsub(hi, lo))):
        return NONE
    r = elem(I, st, s, lo, mut)
    I.store(st, ("loc", q.key, q.path, None), Op("iter", s, ladd(lo, 1), hi, mut))
    return some(r)


@m(ITER + "DoubleEndedIterator>::next_back$")
def _(I, st, f, a):
    q, v = it_get(I, st, a[0])
    s, lo, hi, mut = v.a
    if st.facts.decide(("eq", lsub(hi, lo))):
        return NONE
    h = lsub(hi, 1)
    r = elem(I, st, s, h, mut)
    I.store(st, ("loc", q.key, q.path, None), Op("iter", s, lo, h, mut))
    return some(r)


@m(ITER + "Iterator>::nth$")
def _(I, st, f, a):
    q, v = it_get(I, st, a[0])
    s, lo, hi, mut = v.a
    n = a[1]
    i = ladd(lo, n)
    if not st.facts.decide(("ge", lsub(hi, ladd(i, 1)))):
        I.store(st, ("loc", q.key, q.path, None), Op("iter", s, hi, hi, mut))
        return NONE
    r = elem(I, st, s, i, mut)
    I.store(st, ("loc", q.key, q.path, None), Op("iter", s, ladd(i, 1), hi, mut))
    return some(r)


@m(ITER + "Iterator>::size_hint$")
def _(I, st, f, a):
    q, v = it_get(I, st, a[0])
    n = lsub(v.a[2], v.a[1])
    return Agg(0, (n, some(n)))


@m("~^<std::slice::Iter(Mut)?<'(a|_), T> as std::iter::ExactSizeIterator>::(len|is_empty)$", ITER + "Iterator>::count$")
def _(I, st, f, a):
    v = a[0] if type(a[0]) is Op else it_get(I, st, a[0])[1]
    n = lsub(v.a[2], v.a[1])
    if f["def"].endswith("is_empty"):
        return int(st.facts.decide(("eq", n)))
    return n


@m("~^<std::slice::Iter<'(a|_), T> as std::clone::Clone>::clone$")
def _(I, st, f, a):
    return it_get(I, st, a[0])[1]


@m("~^std::slice::Iter::<'a, T>::as_slice$")
def _(I, st, f, a):
    v = it_get(I, st, a[0])[1]
    return sub(I, st, v.a[0], v.a[1], v.a[2])


@m("~^core::slice::<impl \\[T\\]>::copy_from_slice$", "~^core::slice::<impl \\[T\\]>::clone_from_slice$")
def _(I, st, f, a):
    src = text(I, st, a[1])
    n = slen_of(I, st, a[0])
    if not st.facts.decide(("eq", lsub(n, length(src)))):
        raise Panic("copy_from_slice: source slice length does not match destination slice length")
    cur = I.deref(st, a[0])
    I.store(st, cur, Buf(src))
    return UNIT


@m("~^core::slice::<impl \\[T\\]>::contains$")
def _(I, st, f, a):
    x = deref_all(I, st, a[1])
    if not is_u8(argty(I, f)):
        return FALL
    s = text(I, st, a[0])
    if isinstance(x, int):
        return int(has_byte(I, st, s, 1 << x))
    return Unk("contains")


# ---- proved elsewhere -------------------------------------------------------------------------
@m("~^<.*DoublePercentEncode<.*as std::fmt::Write>::write_str$")
def lemma_double(I, st, f, a):
    """Proved by the entries of C02: every piece is written encoded twice."""
    if I.entry.startswith("e_c02") or is_lit(text(I, st, a[1])):
        return FALL
    I.lemmas.add("DoublePercentEncode writes each piece of its value encoded twice (C02)")
    return fwrite(I, st, deref(I, st, a[0]).fs[0], apply(ENC, apply(ENC, text(I, st, a[1]))))
