"""Digests, MACs, RSA and base64: uninterpreted functions of exactly the bytes they are given."""
from models import *
from models import text, deref, deref_all, m, setbuf, fwrite
import seq as _seq

_seq.OPLEN.update({"sha1": 20, "hmac-sha1": 20, "fill": lambda n: n[1]})
FILLS = {}


def fill(byte, n):
    h = FILLS.get(byte)
    if h is None:
        h = FILLS[byte] = mkH([bytes([byte])] * 256)
    return whole(("fill", n), h)


def typenum(name):
    """The number a typenum type name stands for."""
    if name.endswith("UTerm"):
        return 0
    i = name.index("<") + 1
    d = 0
    for j in range(i, len(name)):
        if name[j] == "<":
            d += 1
        elif name[j] == ">":
            d -= 1
        elif name[j] == "," and d == 0:
            return 2 * typenum(name[i:j].strip()) + (1 if "B1" in name[j:] else 0)
    raise Stop("typenum " + name)


def tname(I, t):
    return I.p.types[t].get("name", "")


@m("witness::p::ga_fill")
def _(I, st, f, a):
    n = typenum(tname(I, f["args"][1]))
    if isinstance(a[0], int) and is_u8t(I, f["args"][0]):
        return Buf(fill(a[0], n))
    raise Stop("generic array of other than a constant")


def is_u8t(I, t):
    return tname(I, t) == "u8"


@m("~^generic_array::impls::<impl std::default::Default for generic_array::GenericArray<T, N>>::default$")
def _(I, st, f, a):
    if not is_u8t(I, f["args"][0]):
        return FALL
    return Buf(fill(0, typenum(tname(I, f["args"][1]))))


@m("~^<generic_array::GenericArray<T, N> as std::ops::Deref(Mut)?>::deref(_mut)?$",
   r"~^generic_array::.*<impl std::convert::(AsRef|AsMut)<\[T\]> for generic_array::GenericArray<T, N>>::as_(ref|mut)$",
   r"~^generic_array::.*<impl std::borrow::Borrow(Mut)?<\[T\]> for generic_array::GenericArray<T, N>>::borrow(_mut)?$",
   r"~^generic_array::GenericArray::<T, N>::as_(mut_)?slice$")
def _(I, st, f, a):
    p = a[0]
    while True:
        v = deref(I, st, p)
        if type(v) is Ptr:
            p = v
            continue
        break
    if type(v) is not Buf or type(p) is not Ptr:
        raise Stop("generic array")
    return Ptr(p.key, p.path, ("sl", 0, length(v.s)))


@m(r"~^generic_array::.*<impl std::clone::Clone for generic_array::GenericArray<T, N>>::clone$", r"~^<generic_array::GenericArray<T, N> as std::clone::Clone>::clone$")
def _(I, st, f, a):
    return deref_all(I, st, a[0])


@m(r"~^generic_array::GenericArray::<T, N>::(from_slice|from_mut_slice|clone_from_slice)$")
def _(I, st, f, a):
    if f["def"].endswith("clone_from_slice"):
        return Buf(text(I, st, a[0]))
    return a[0]


# ---- digests ----------------------------------------------------------------------------------
SHA = r"digest::core_api::wrapper::CoreWrapper<sha1::Sha1Core>"
HM = r"digest::core_api::wrapper::CoreWrapper<hmac::optim::HmacCore<digest::core_api::wrapper::CoreWrapper<sha1::Sha1Core>>>"


def algo(I, f):
    """The algorithm of the type a method belongs to."""
    for t in f["args"][:1]:
        n = tname(I, t)
        if n in ("sha1::Sha1Core", SHA):
            return "sha1"
        if n in (HM, HM[len("digest::core_api::wrapper::CoreWrapper<"):-1]):
            return "hmac-sha1"
    raise Stop("digest of another type: %s" % (tname(I, f["args"][0]) if f["args"] else f["def"]))


def hasher(I, st, p):
    v = deref_all(I, st, p)
    if type(v) is not Op or v.k != "hash":
        raise Stop("digest state")
    return v


def where_is(I, st, p):
    v = deref(I, st, p)
    while type(v) is Ptr:
        p, v = v, deref(I, st, v)
    return p


def digest_of(I, st, h):
    if h.a[0] == "sha1":
        return whole(("sha1", h.a[2]))
    return whole(("hmac-sha1", hmac_key(st, h.a[1]), h.a[2]))


def hmac_key(st, k):
    """HMAC uses the digest of a key that is longer than a block (RFC 2104)."""
    if len(k) == 1 and k[0][0] == "s" and isinstance(k[0][1], tuple) and k[0][1][0] == "sha1" and k[0] == whole(k[0][1])[0]:
        inner = k[0][1][1]
        if st.facts.decide(("ge", lsub(length(inner), 65))):
            return inner
    return k


def update(I, st, p, data):
    s = data_of(I, st, data)
    h = hasher(I, st, p)
    q = where_is(I, st, p)
    I.write(st, q.key, q.path, Op("hash", h.a[0], h.a[1], cat(h.a[2], s)))


def data_of(I, st, d):
    return text(I, st, d) if type(d) not in (SV, Buf) else d.s


DIG = r"~^(<D as digest::digest::Digest>|<digest::core_api::wrapper::CoreWrapper<T> as digest::[A-Za-z:]+>|<T as digest::mac::Mac>|<digest::core_api::wrapper::CoreWrapper<T> as [a-z_:]+::[A-Za-z]+>|digest::FixedOutput|digest::Update|digest::digest::Digest|digest::mac::Mac|crypto_common::KeyInit|digest::DynDigest|digest::FixedOutputReset)::"


@m(DIG + "(new|default)$")
def _(I, st, f, a):
    al = algo(I, f)
    if al == "sha1":
        return Op("hash", "sha1", (), ())
    return Op("hash", "hmac-sha1", text(I, st, a[0]), ())


@m(DIG + "(new_from_slice)$")
def _(I, st, f, a):
    if algo(I, f) != "hmac-sha1":
        raise Stop("keyed digest")
    return ok(Op("hash", "hmac-sha1", text(I, st, a[0]), ()))


@m(DIG + "(new_with_prefix)$")
def _(I, st, f, a):
    return Op("hash", algo(I, f), (), data_of(I, st, a[0]))


@m(DIG + "(digest)$")
def _(I, st, f, a):
    return Buf(whole((algo(I, f), data_of(I, st, a[0]))))


@m(DIG + "(update)$")
def _(I, st, f, a):
    update(I, st, a[0], a[1])
    return UNIT


@m(DIG + "(chain|chain_update)$")
def _(I, st, f, a):
    h = a[0]
    if type(h) is not Op or h.k != "hash":
        raise Stop("digest state")
    return Op("hash", h.a[0], h.a[1], cat(h.a[2], data_of(I, st, a[1])))


@m(DIG + "(finalize|finalize_fixed|finalize_reset|finalize_fixed_reset|finalize_boxed)$")
def _(I, st, f, a):
    h = a[0]
    d = Buf(digest_of(I, st, hasher(I, st, h) if type(h) is Ptr else h))
    if f["def"].endswith("reset"):
        q = where_is(I, st, h)
        o = hasher(I, st, h)
        I.write(st, q.key, q.path, Op("hash", o.a[0], o.a[1], ()))
    return d


@m(DIG + "(finalize_into|finalize_into_reset)$")
def _(I, st, f, a):
    d = digest_of(I, st, hasher(I, st, a[0]) if type(a[0]) is Ptr else a[0])
    setbuf(I, st, a[1], d)
    return UNIT


@m(DIG + "(reset)$")
def _(I, st, f, a):
    q = where_is(I, st, a[0])
    o = hasher(I, st, a[0])
    I.write(st, q.key, q.path, Op("hash", o.a[0], o.a[1], ()))
    return UNIT


@m(r"~^<digest::core_api::wrapper::CoreWrapper<T> as std::clone::Clone>::clone$")
def _(I, st, f, a):
    return hasher(I, st, a[0])


@m(r"~^digest::mac::CtOutput::<T>::(new|into_bytes)$", r"~^<digest::mac::CtOutput<T> as std::convert::From<.*>>::from$")
def _(I, st, f, a):
    return a[0] if type(a[0]) is not Ptr else deref_all(I, st, a[0])


# ---- RSA --------------------------------------------------------------------------------------
@m(r"~^rsa::(pkcs1v15|padding)::Pkcs1v15Sign::(new|new_unprefixed|new_raw)$")
def _(I, st, f, a):
    if f["def"].endswith("::new") and len(f["args"]) == 1 and tname(I, f["args"][0]) == SHA:
        return Op("rsapad", "pkcs1v15-sha1")
    return Op("rsapad", "pkcs1v15-other")


@m(r"~^rsa::padding::PaddingScheme::new_pkcs1v15_sign(_raw)?$")
def _(I, st, f, a):
    v = a[0] if a else None
    if type(v) is Agg and v.v == 1 and type(v.fs[0]) is Agg and variant_name(I, "rsa::hash::Hash", "rsa::Hash", v.fs[0].v) == "SHA1":
        return Op("rsapad", "pkcs1v15-sha1")
    return Op("rsapad", "pkcs1v15-other")


@m(r"~^rsa::padding::PaddingScheme::new_", r"~^rsa::p[a-z0-9]+::P[a-z0-9]+::new")
def _(I, st, f, a):
    return Op("rsapad", "other")


def variant_name(I, *a):
    i = a[-1]
    for t in I.p.types:
        if t["k"] == "adt" and (t.get("def") in a[:-1] or t.get("name") in a[:-1] or t.get("name", "").endswith("::Hash") and t["ak"] == "enum" and any(v["name"] == "SHA1" for v in t["variants"])):
            return t["variants"][i]["name"]
    return None


@m(r"~RsaPrivateKey::sign(_blinded)?$")
def _(I, st, f, a):
    k = deref_all(I, st, a[0])
    if type(k) is Agg and len(k.fs) == 1:
        k = k.fs[0]
    pad = deref_all(I, st, a[1])
    if type(k) is not Op or k.k != "obj" or type(pad) is not Op or pad.k != "rsapad":
        raise Stop("rsa signature")
    return ok(Buf(whole(("rsa-" + pad.a[0], k.a[0], text(I, st, a[2])))))


# ---- base64 -----------------------------------------------------------------------------------
STD = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
URL = STD[:62] + b"-_"


def b64kind(I, st, eng):
    """The operation an engine value stands for, by its alphabet and padding."""
    v = deref_all(I, st, eng)
    tab = pad = None
    if type(v) is Agg:
        for x in v.fs:
            if type(x) is Buf and len(lit_of(x.s) or b"") == 64:
                tab = lit_of(x.s)
            elif type(x) is Agg and len(x.fs) == 64 and all(isinstance(q, int) for q in x.fs):
                tab = bytes(x.fs)
            elif type(x) is Agg and x.fs and isinstance(x.fs[0], int) and len(x.fs) <= 3:
                pad = x.fs[0]
    if tab not in (STD, URL) or pad not in (0, 1):
        raise Stop("base64 engine %r" % (v,))
    return ("b64" if tab == STD else "b64url") + ("" if pad == (tab == STD) else "-pad" if pad else "-nopad")


_seq.OPMASK["b64-nopad"] = M_B64
_seq.OPMASK["b64url-pad"] = M_B64URL | 1 << ord("=")


@m(r"~^base64::display::Base64Display::<.*>::(new|with_config|from)$")
def _(I, st, f, a):
    return Op("b64d", text(I, st, a[0]), b64kind(I, st, a[1]))


@m(r"~^<base64::display::Base64Display<.*> as std::fmt::Display>::fmt$")
def _(I, st, f, a):
    v = deref_all(I, st, a[0])
    if type(v) is not Op or v.k != "b64d":
        raise Stop("base64 display")
    return fwrite(I, st, a[1], whole((v.a[1], v.a[0])))


@m(r"~^base64::engine::Engine::encode$", r"~^base64::(encode::)?encode(_config)?$")
def _(I, st, f, a):
    if len(a) == 1:
        return Buf(whole(("b64", text(I, st, a[0]))))
    return Buf(whole((b64kind(I, st, a[0]), text(I, st, a[1]))))


@m(r"~^base64::engine::Engine::encode_string$")
def _(I, st, f, a):
    s = text(I, st, a[2])
    setbuf(I, st, a[2], cat(s, whole((b64kind(I, st, a[0]), text(I, st, a[1])))))
    return UNIT


@m(r"~^base64::engine::Engine::encode_slice(_unchecked)?$")
def _(I, st, f, a):
    from lib_slice import slen_of
    out = whole((b64kind(I, st, a[0]), text(I, st, a[1])))
    n = slen_of(I, st, a[2])
    if not st.facts.decide(("ge", lsub(n, length(out)))):
        return err(Agg(0, ()))
    old = text(I, st, a[2])
    rest = I.slice(st, old, length(out), n)
    cur = I.deref(st, a[2])
    I.store(st, cur, Buf(cat(out, rest)))
    return ok(length(out))


@m(r"~^<.*RsaPrivateKey as std::clone::Clone>::clone$")
def _(I, st, f, a):
    return deref(I, st, a[0])


@m(r"~^<.*RsaPrivateKey as std::fmt::Debug>::fmt$")
def _(I, st, f, a):
    k = deref_all(I, st, a[0])
    while type(k) is Agg and len(k.fs) == 1:
        k = k.fs[0]
    if type(k) is not Op or k.k != "obj":
        raise Stop("debug of a key")
    return fwrite(I, st, a[1], cat(lit("RsaPrivateKey { "), k.a[0], lit(" }")))
