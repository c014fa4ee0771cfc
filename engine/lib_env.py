"""Ambient state: random generators, the clock and whatever else a function reads that is not an argument."""
from models import *
from models import text, deref, deref_all, m, setbuf
import seq as _seq
from lib_slice import slen_of

_seq.OPLEN.update({"rnd": lambda n: n[2], "weak": lambda n: n[2]})


def bump(st, name):
    k = "fx:" + name
    st.g[k] = st.g.get(k, 0) + 1
    if name != "ambient":
        bump(st, "ambient")


@m(r"~^rand::(rngs::thread::)?(thread_rng|rng)$")
def _(I, st, f, a):
    return Op("rng", "crypto")


RNG = r"~^<(?P<t>.*) as rand_core::(RngCore|TryRngCore)>::"


def source(I, st, f, p):
    """Which kind of generator a receiver is."""
    v = deref_all(I, st, p)
    d = f["def"]
    n = " ".join(I.p.types[t].get("name", "") for t in f["args"])
    if type(v) is Op and v.k == "rng":
        return "rnd" if v.a[0] == "crypto" else "weak"
    if "OsRng" in d:
        return "rnd"
    return "weak"


def rnd(I, st, kind, n):
    bump(st, "rng")
    i = st.g.get("fx:rng")
    return whole((kind, "r%d" % i, n))


def fill(I, st, f, a):
    p = a[1]
    n = slen_of(I, st, p)
    if isinstance(n, Lin):
        raise Stop("random bytes of unknown number")
    s = rnd(I, st, source(I, st, f, a[0]), n)
    I.store(st, I.deref(st, p), Buf(s))


@m(RNG + "fill_bytes$")
def _(I, st, f, a):
    fill(I, st, f, a)
    return UNIT


@m(RNG + "try_fill_bytes$", r"~^rand::(rng::)?Rng::try_fill$")
def _(I, st, f, a):
    fill(I, st, f, a)
    return ok()


@m(r"~^rand::(rng::)?Rng::fill$")
def _(I, st, f, a):
    fill(I, st, f, a)
    return UNIT


@m(RNG + "next_u(32|64)$", r"~^rand::(rng::)?Rng::(gen|gen_range|gen_bool|sample|random)$", r"~^rand::random$")
def _(I, st, f, a):
    k = source(I, st, f, a[0]) if a else "rnd"
    bump(st, "rng")
    if f["def"].endswith(("next_u32", "next_u64")):
        return sym("n:%s:%d" % (k, st.g["fx:rng"]))
    return Unk("random value")


@m(r"~^<rand::.*Rng(<.*>)? as rand_core::SeedableRng>::", r"~^rand_core::SeedableRng::")
def _(I, st, f, a):
    if "from_entropy" in f["def"] or "from_rng" in f["def"]:
        bump(st, "rng")
        return Op("rng", "crypto" if "StdRng" in f["def"] or "ThreadRng" in f["def"] or "ChaCha" in f["def"] else "weak")
    return Op("rng", "weak")


@m(r"~^<rand::rngs::.* as std::clone::Clone>::clone$")
def _(I, st, f, a):
    return deref_all(I, st, a[0])


@m(r"~^getrandom::getrandom$")
def _(I, st, f, a):
    n = slen_of(I, st, a[0])
    if isinstance(n, Lin):
        raise Stop("random bytes of unknown number")
    I.store(st, I.deref(st, a[0]), Buf(rnd(I, st, "rnd", n)))
    return ok()


# ---- the clock --------------------------------------------------------------------------------
@m("std::time::SystemTime::now")
def _(I, st, f, a):
    bump(st, "clock")
    return Op("now", st.g["fx:clock"])


def zeros(v):
    return v == 0 if isinstance(v, int) else type(v) is Agg and all(zeros(x) for x in v.fs)


def since(I, st, k):
    if st.facts.decide(("nd", "clock%d" % k)):
        return ok(Op("dur", k))
    return err(Op("before", k))


@m("std::time::SystemTime::duration_since")
def _(I, st, f, a):
    t, e = deref_all(I, st, a[0]), deref_all(I, st, a[1])
    if type(t) is Op and t.k == "now" and zeros(e):
        return since(I, st, t.a[0])
    if type(e) is Op and e.k == "now" and zeros(t):
        r = since(I, st, e.a[0])
        return err(Op("after", e.a[0])) if r.v == 0 else ok(Op("dur-before", e.a[0]))
    raise Stop("time since something else than the UNIX epoch")


@m("std::time::SystemTime::elapsed")
def _(I, st, f, a):
    if not zeros(deref_all(I, st, a[0])):
        raise Stop("time since something else than the UNIX epoch")
    k = st.g.get("fx:clock", 0) + 1
    r = since(I, st, k)
    bump(st, "clock")
    return r


UNITS = {"as_secs": "now", "as_millis": "now_ms", "as_micros": "now_us", "as_nanos": "now_ns", "subsec_nanos": "now_subns", "subsec_millis": "now_subms", "subsec_micros": "now_subus"}


@m(r"~^std::time::Duration::(as_secs|as_millis|as_micros|as_nanos|subsec_[a-z]+)$")
def _(I, st, f, a):
    d = deref_all(I, st, a[0])
    u = f["def"].rsplit("::", 1)[1]
    if type(d) is Op and d.k in ("dur", "dur-before"):
        return sym("n:%s%s%s" % ("before_" if d.k == "dur-before" else "", UNITS[u], "" if d.a[0] == 1 else d.a[0]))
    if type(d) is Agg and zeros(d):
        return 0
    raise Stop("duration")


@m("~^std::time::SystemTimeError::duration$")
def _(I, st, f, a):
    d = deref_all(I, st, a[0])
    return Op("dur-before", d.a[0])


@m(r"~^std::result::Result::<T, E>::unwrap_or_default$")
def _(I, st, f, a):
    v = a[0]
    if type(v) is Agg and v.v == 0 and v.fs and type(v.fs[0]) is Op and v.fs[0].k == "dur":
        return v.fs[0]
    if type(v) is Agg and v.v == 1 and v.fs and type(v.fs[0]) is Op and v.fs[0].k == "before":
        return Agg(0, (0, 0))
    return FALL


# ---- anything else ----------------------------------------------------------------------------
@m(r"~^std::(env|fs|net|process)::", r"~^std::thread::(?!LocalKey|local|panicking)", r"~^std::time::Instant::")
def _(I, st, f, a):
    bump(st, "ambient")
    raise Stop("ambient state: " + f["def"])
