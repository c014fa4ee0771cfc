"""Vec<T> and arrays of anything but bytes: a place whose value is an Agg of the elements."""
from models import *
from models import text, deref, deref_all, m, is_u8, argty
from lib_slice import slen_of, sub, elem


def loc(I, st, p):
    """The place behind a reference to a Vec."""
    cur = I.deref(st, p)
    while cur[0] == "loc":
        v = I.read(st, cur[1], cur[2])
        if type(v) is Ptr:
            cur = I.deref(st, v)
            continue
        break
    return cur


def vec(I, st, p):
    v = deref_all(I, st, p)
    if type(v) is Agg:
        return v.fs
    raise Stop("vector %s" % type(v).__name__)


def put(I, st, p, fs):
    I.store(st, loc(I, st, p), Agg(0, tuple(fs)))


def bytes_(I, f):
    return is_u8(argty(I, f))


@m("std::vec::Vec::<T>::new", "std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T, A>::with_capacity_in", "std::vec::Vec::<T, A>::new_in",
   "<std::vec::Vec<T> as std::default::Default>::default")
def _(I, st, f, a):
    return Buf(()) if bytes_(I, f) else Agg(0, ())


@m("std::vec::Vec::<T, A>::push", "std::vec::Vec::<T, A>::push_mut")
def _(I, st, f, a):
    if bytes_(I, f):
        return FALL
    put(I, st, a[0], vec(I, st, a[0]) + (a[1],))
    return UNIT


@m("std::vec::Vec::<T, A>::pop")
def _(I, st, f, a):
    if bytes_(I, f):
        return FALL
    v = vec(I, st, a[0])
    if not v:
        return NONE
    put(I, st, a[0], v[:-1])
    return some(v[-1])


@m("std::vec::Vec::<T, A>::insert")
def _(I, st, f, a):
    if bytes_(I, f) or not isinstance(a[1], int):
        return FALL
    v = vec(I, st, a[0])
    if a[1] > len(v):
        raise Panic("insertion index")
    put(I, st, a[0], v[:a[1]] + (a[2],) + v[a[1]:])
    return UNIT


@m("std::vec::Vec::<T, A>::remove", "std::vec::Vec::<T, A>::swap_remove")
def _(I, st, f, a):
    if bytes_(I, f) or not isinstance(a[1], int):
        return FALL
    v = vec(I, st, a[0])
    if a[1] >= len(v):
        raise Panic("removal index")
    x = v[a[1]]
    if f["def"].endswith("swap_remove"):
        w = list(v)
        w[a[1]] = w[-1]
        put(I, st, a[0], w[:-1])
    else:
        put(I, st, a[0], v[:a[1]] + v[a[1] + 1:])
    return x


@m("std::vec::Vec::<T, A>::len", "std::vec::Vec::<T, A>::is_empty")
def _(I, st, f, a):
    n = slen_of(I, st, a[0])
    return n if f["def"].endswith("len") else int(st.facts.decide(("eq", n)))


@m("std::vec::Vec::<T, A>::clear", "std::vec::Vec::<T, A>::truncate")
def _(I, st, f, a):
    n = a[1] if len(a) > 1 else 0
    if bytes_(I, f) or not isinstance(n, int):
        return FALL
    put(I, st, a[0], vec(I, st, a[0])[:n])
    return UNIT


@m("std::vec::Vec::<T, A>::reserve", "std::vec::Vec::<T, A>::reserve_exact", "std::vec::Vec::<T, A>::shrink_to_fit")
def _(I, st, f, a):
    return UNIT


@m(r"~^<std::vec::Vec<T, A> as std::(convert::AsRef<\[T\]>>::as_ref|convert::AsMut<\[T\]>>::as_mut|ops::Deref>::deref|ops::DerefMut>::deref_mut|borrow::Borrow(Mut)?<\[T\]>>::borrow(_mut)?)$",
   r"~^std::vec::Vec::<T, A>::as_(mut_)?slice$", r"~impl std::(borrow::Borrow(Mut)?|convert::As(Ref|Mut))<\[T\]> for std::vec::Vec<T, A>>::(borrow|as)(_ref|_mut)?$",
   r"~impl std::(convert::As(Ref|Mut)<\[T\]>|borrow::Borrow(Mut)?<\[T\]>) for \[T; N\]>::(as_ref|as_mut|borrow|borrow_mut)$", r"~^(core|std)::array::<impl \[T; N\]>::as_(mut_)?slice$")
def _(I, st, f, a):
    v = a[0]
    x = deref_all(I, st, v)
    if type(x) is Agg:
        cur = loc(I, st, v)
        if cur[0] == "loc":
            return Ptr(cur[1], cur[2], ("sl", 0, len(x.fs)))
    if type(x) is Op and x.k in ("vec", "arr"):
        cur = loc(I, st, v)
        if cur[0] == "loc":
            return Ptr(cur[1], cur[2], ("sl", 0, len(x.a[0])))
    if type(x) in (Buf, SV):
        if "mut" in f["def"].lower():
            cur = loc(I, st, v)
            return Ptr(cur[1], cur[2], ("sl", 0, length(x.s)))
        return SV(x.s)
    raise Stop("slice of %s" % type(x).__name__)


# ---- by value -----------------------------------------------------------------------------------
@m(r"~^<std::vec::Vec<T(, A)?> as std::iter::IntoIterator>::into_iter$", r"~^(core|std)::array::(iter::)?<impl std::iter::IntoIterator for \[T; N\]>::into_iter$", r"~^<\[T; N\] as std::iter::IntoIterator>::into_iter$",
   r"~^(core|std)::array::.*IntoIterator for \[T; N\]>::into_iter$")
def _(I, st, f, a):
    v = a[0]
    if type(v) is Agg:
        return Op("vecit", v.fs)
    return FALL


def it(I, st, p):
    q, v = None, p
    while type(v) is Ptr:
        q = v
        v = I.read(st, v.key, v.path)
    if type(v) is Op and v.k == "vecit":
        return q, v.a[0]
    raise Stop("by-value iterator")


@m(r"~^<std::(vec|array)::IntoIter<T, .*> as std::iter::Iterator>::next$")
def _(I, st, f, a):
    q, fs = it(I, st, a[0])
    if not fs:
        return NONE
    I.store(st, ("loc", q.key, q.path, None), Op("vecit", fs[1:]))
    return some(fs[0])


@m(r"~^<std::(vec|array)::IntoIter<T, .*> as std::iter::DoubleEndedIterator>::next_back$")
def _(I, st, f, a):
    q, fs = it(I, st, a[0])
    if not fs:
        return NONE
    I.store(st, ("loc", q.key, q.path, None), Op("vecit", fs[:-1]))
    return some(fs[-1])


@m(r"~^<std::(vec|array)::IntoIter<T, .*> as std::iter::Iterator>::size_hint$")
def _(I, st, f, a):
    n = len(it(I, st, a[0])[1])
    return Agg(0, (n, some(n)))


# ---- slices -------------------------------------------------------------------------------------
@m("core::slice::<impl [T]>::swap", "core::slice::<impl [T]>::swap_unchecked")
def _(I, st, f, a):
    v, i, j = a
    n = slen_of(I, st, v)
    if not all(isinstance(x, int) for x in (i, j, n)):
        raise Stop("swap at unknown positions")
    if i >= n or j >= n:
        raise Panic("index out of bounds")
    p, q = elem(I, st, v, i, True), elem(I, st, v, j, True)
    x, y = I.read(st, p.key, p.path), I.read(st, q.key, q.path)
    I.store(st, ("loc", p.key, p.path, None), y)
    I.store(st, ("loc", q.key, q.path, None), x)
    return UNIT


@m("std::ptr::swap", "std::mem::swap")
def _(I, st, f, a):
    p, q = I.deref(st, a[0]), I.deref(st, a[1])
    if p[0] != "loc" or q[0] != "loc" or p[3] or q[3]:
        raise Stop("swap")
    x, y = I.read(st, p[1], p[2]), I.read(st, q[1], q[2])
    I.store(st, p, y)
    I.store(st, q, x)
    return UNIT


@m("core::slice::<impl [T]>::windows", "core::slice::<impl [T]>::chunks", "core::slice::<impl [T]>::chunks_exact")
def _(I, st, f, a):
    n = slen_of(I, st, a[0])
    if a[1] == 0:
        raise Panic("window size must be non-zero")
    if not isinstance(n, int) or not isinstance(a[1], int):
        raise Stop("windows of unknown length")
    return Op("wins", a[0], 0, n, a[1], f["def"].rsplit("::", 1)[1])


@m(r"~^<std::slice::(Windows|Chunks|ChunksExact)<'(a|_), T> as std::iter::Iterator>::next$")
def _(I, st, f, a):
    q, v = None, a[0]
    while type(v) is Ptr:
        q = v
        v = I.read(st, v.key, v.path)
    s, lo, hi, n, kind = v.a
    if hi - lo < (1 if kind == "chunks" else n):
        return NONE
    end = min(hi, lo + n)
    r = sub(I, st, s, lo, end)
    I.store(st, ("loc", q.key, q.path, None), Op("wins", s, lo + 1 if kind == "windows" else end, hi, n, kind))
    return some(r)


@m("intrinsic:integer_min", "intrinsic:integer_max")
def _(I, st, f, a):
    x, y = a
    le = I.binop(st, "Le", x, y, f["args"][0])
    if le not in (0, 1):
        return Unk("min")
    return x if le == (1 if f["iname"].endswith("min") else 0) else y


# ---- boxes --------------------------------------------------------------------------------------
@m(r"~^std::boxed::Box::<T>::(new_uninit|new|pin)$", r"~^<std::boxed::Box<T> as std::convert::From<T>>::from$")
def _(I, st, f, a):
    p = Ptr(st.alloc(a[0] if a else Agg(0, (UNIT, Agg(0, (Unk("uninitialised"),))))))
    return Agg(0, (Agg(0, (Agg(0, (p,)), UNIT)), UNIT))


@m(r"~^std::boxed::box_assume_init_into_vec_unsafe$", r"~^(core|std|alloc)::slice::<impl \[T\]>::into_vec$")
def _(I, st, f, a):
    v = a[0]
    while type(v) is Agg and v.fs:
        v = v.fs[0]
    if type(v) is Ptr:
        v = I.read(st, v.key, v.path)
        if f["def"].endswith("vec_unsafe"):
            if type(v) is Agg and len(v.fs) == 2 and type(v.fs[1]) is Agg:
                v = v.fs[1].fs[0]
            else:
                raise Stop("boxed slice")
        if type(v) is Agg:
            return v
    raise Stop("boxed slice")


def plain(x):
    return type(x) in (SV, int, Lin, Tab) or type(x) is Agg and all(plain(y) for y in x.fs)


@m(r"~^<std::(vec|array)::IntoIter<T, .*> as std::clone::Clone>::clone$")
def _(I, st, f, a):
    q, fs = it(I, st, a[0])
    for x in fs:
        if not plain(x):
            raise Stop("clone of an iterator")
    return Op("vecit", fs)
