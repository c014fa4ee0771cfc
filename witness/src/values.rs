//! Each value as it is written and as it is signed; which parameters there are.
use crate::p::*;
use crate::sp::*;
use core::fmt::{self, Display, Write};
use core::num::NonZeroU64;
use oauth1_request::serializer::auth::{Authorizer, Options};
use oauth1_request::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth1_request::Credentials;
use std::string::String;

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Header,
    Form,
    Query,
}
use Mode::*;

fn make<'a>(mode: Mode, token: Option<Credentials<S>>, o: &'a Options<'a>, pm: PM) -> Authorizer<'a, PM, String> {
    let client = Credentials::new(sym_str("ck"), sym_str("sec:cs"));
    let uri = sym_str("uri");
    assume_no(uri, "?");
    let m = sym_str("method");
    log_set("sign", "");
    log_set("base", "");
    match mode {
        Header => Authorizer::authorization(m, uri, client, token, o, pm),
        Form => Authorizer::form(m, uri, client, token, o, pm),
        Query => Authorizer::query(m, String::from(uri), client, token, o, pm),
    }
}

fn tk() -> Credentials<S> {
    Credentials::new(sym_str("tk"), sym_str("sec:ts"))
}

/// The value of one kind of parameter after the other.
fn oauth_values(mode: Mode) {
    let mut o = Options::new();
    o.callback(sym_str("callback")).verifier(sym_str("verifier")).version(true);
    o.nonce(sym_str("nonce"));
    let t = sym_u64("timestamp");
    assume_pos(t);
    o.timestamp(NonZeroU64::new(t));
    let mut s = make(mode, Some(tk()), &o, PM::ALL);
    let v = PV::fresh();
    let e = PV::fresh();
    let v2 = PV::fresh();
    let k = sym_str("rk1");
    let k2 = sym_str("rk2");
    assume_le(k, "oauth_callback");
    assume_le("oauth_version", k2);
    s.serialize_parameter(k, v);
    s.serialize_oauth_parameters();
    s.serialize_parameter_encoded(k2, e);
    s.serialize_parameter(k2, v2);
    let out = s.end();
    let base = log_get("base");
    let (q, r) = if mode == Header { ("=\"", "\"") } else { ("=", "") };
    value(&out, base, sym_str("callback"), q, r, "oauth_callback");
    value(&out, base, sym_str("ck"), q, r, "oauth_consumer_key");
    value(&out, base, sym_str("nonce"), q, r, "oauth_nonce");
    value(&out, base, sym_str("tk"), q, r, "oauth_token");
    value(&out, base, sym_str("verifier"), q, r, "oauth_verifier");
    check_once("C01", &out, dec(t), cat(&["oauth_timestamp", q, dec(t), r]), "the timestamp");
    check_once("C02", base, dec(t), cat(&["oauth_timestamp%3D", dec(t)]), "the timestamp, signed");
    check_once("C02", base, v.s(), cat(&[k, "%3D", enc2(v.s())]), "a raw value, signed");
    check_once("C02", base, e.s(), cat(&[k2, "%3D", enc(e.s())]), "an encoded value, signed");
    check_once("C02", base, v2.s(), cat(&[k2, "%3D", enc2(v2.s())]), "a later raw value, signed");
    if mode == Header {
        check_once("C01", &out, sig(), cat(&["oauth_signature=\"", sig(), "\""]), "the signature");
        check_free("C06", &out, "v#", "the request's own parameters");
        check_free("C06", &out, "rk", "the request's own parameters");
    } else {
        check_once("C01", &out, sig(), cat(&["oauth_signature=", sig()]), "the signature");
        check_once("C01", &out, v.s(), cat(&[k, "=", enc(v.s())]), "a raw value");
        check_once("C01", &out, e.s(), cat(&[k2, "=", e.s()]), "an encoded value");
        check_once("C01", &out, v2.s(), cat(&[k2, "=", enc(v2.s())]), "a later raw value");
    }
    check_free("C26", &out, "sec:", "what is written");
    check_free("C26", base, "sec:", "what is signed");
}

fn value(out: &str, base: S, v: S, q: S, r: S, name: S) {
    check_once("C01", out, v, cat(&[name, q, enc(v), r]), name);
    check_once("C02", base, v, cat(&[name, "%3D", enc2(v)]), name);
}

pub fn e_c01_oauth_header() {
    oauth_values(Header);
}
pub fn e_c01_oauth_form() {
    oauth_values(Form);
}
pub fn e_c01_oauth_query() {
    oauth_values(Query);
}

fn plain(mut u: Urlencoder<String>, prefix: S) {
    let v = PV::fresh();
    let e = PV::fresh();
    u.serialize_parameter("a", v);
    u.serialize_parameter_encoded("b", e);
    u.serialize_parameter("c", sym_u64("n"));
    let out = u.end();
    check_once("C01", &out, v.s(), cat(&["a=", enc(v.s())]), "a raw value");
    check_once("C01", &out, e.s(), cat(&["b=", e.s()]), "an encoded value");
    check_once("C01", &out, dec(sym_u64("n")), cat(&["c=", dec(sym_u64("n"))]), "a number");
}
pub fn e_c01_urlencoder_form() {
    plain(Urlencoder::form(), "");
}
pub fn e_c01_urlencoder_form_buf() {
    plain(Urlencoder::form_with_buf(String::from(sym_str("buf"))), sym_str("buf"));
}
pub fn e_c01_urlencoder_query() {
    plain(Urlencoder::query(String::from(sym_str("buf"))), sym_str("buf"));
}

/// A value that writes characters, one by one and together, formatted pieces and nothing at all.
struct PC;
impl Display for PC {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_char('\u{e9}')?;
        f.write_str("")?;
        f.write_char('+')?;
        f.write_str("a%2")?;
        f.write_char('~')?;
        f.write_str("")?;
        write!(f, "{}{}", '&', 10)?;
        f.write_str("\u{20ac} =\u{0}")
    }
}

pub fn e_c01_chars() {
    let mut u = Urlencoder::form();
    u.serialize_parameter("a", PC);
    u.serialize_parameter_encoded("b", PC);
    check_eq("C01", &u.end(), "a=%C3%A9%2Ba%252~%2610%E2%82%AC%20%3D%00&b=\u{e9}+a%2~&10\u{20ac} =\u{0}", "characters");
}

pub fn e_c01_chars_auth() {
    let o = Options::new();
    let mut s = make(Form, None, &o, PM { use_nonce: false, use_timestamp: false });
    s.serialize_parameter("a", PC);
    s.serialize_parameter_encoded("b", PC);
    let base = log_get("base");
    let want = "a%3D%25C3%25A9%252Ba%25252~%252610%25E2%2582%25AC%2520%253D%2500%26b%3D%C3%A9%2Ba%252~%2610%E2%82%AC%20%3D%00";
    check_eq("C02", base, want, "characters, signed");
    check_eq("C01", &s.end(), cat(&["a=%C3%A9%2Ba%252~%2610%E2%82%AC%20%3D%00&b=\u{e9}+a%2~&10\u{20ac} =\u{0}&oauth_signature=", sig()]), "characters");
}

/// Which of the OAuth parameters there are.
fn presence(mode: Mode, sharp: bool) {
    let mut o = Options::new();
    let mut cb = 0;
    let mut ve = 0;
    let mut vn = 0;
    let mut n = false;
    let mut t = false;
    if nd() {
        o.callback(sym_str("callback"));
        cb = 1;
    }
    if nd() {
        o.verifier(sym_str("verifier"));
        ve = 1;
    }
    if nd() {
        o.version(true);
        vn = 1;
    }
    if nd() {
        o.nonce(sym_str("nonce"));
        n = true;
    }
    if nd() {
        let x = sym_u64("timestamp");
        assume_pos(x);
        o.timestamp(NonZeroU64::new(x));
        t = true;
    }
    let token = if nd() { Some(tk()) } else { None };
    let pm = PM::any();
    let mut s = make(mode, token, &o, pm.clone());
    s.serialize_oauth_parameters();
    let out = s.end();
    let sign = log_get("sign");
    let (q, r) = if mode == Header { ("=\"", "\"") } else { ("=", "") };
    count(&out, sign, q, "oauth_callback", cb);
    count(&out, sign, q, "oauth_consumer_key", 1);
    count(&out, sign, q, "oauth_nonce", pm.use_nonce as usize);
    count(&out, sign, q, "oauth_signature_method", 1);
    count(&out, sign, q, "oauth_timestamp", pm.use_timestamp as usize);
    count(&out, sign, q, "oauth_token", token.is_some() as usize);
    count(&out, sign, q, "oauth_verifier", ve);
    count(&out, sign, q, "oauth_version", vn);
    check_count("C08", &out, cat(&["oauth_version", q, "1.0", r]), vn, "the version");
    check_count("C08", sign, " parameter(oauth_version=1.0)", vn, "the version, signed");
    check_count("C08", &out, cat(&["oauth_signature_method", q, "PM", r]), 1, "the name of the signature method");
    if cb == 1 {
        supplied(&out, sign, q, r, "oauth_callback", sym_str("callback"));
    }
    if ve == 1 {
        supplied(&out, sign, q, r, "oauth_verifier", sym_str("verifier"));
    }
    if token.is_some() {
        supplied(&out, sign, q, r, "oauth_token", sym_str("tk"));
    }
    supplied(&out, sign, q, r, "oauth_consumer_key", sym_str("ck"));
    if n && pm.use_nonce {
        supplied(&out, sign, q, r, "oauth_nonce", sym_str("nonce"));
    }
    if t && pm.use_timestamp {
        supplied(&out, sign, q, r, "oauth_timestamp", dec(sym_u64("timestamp")));
    }
    // C22 to C24: what is consulted
    check("C24", (n || !pm.use_nonce) || effects("rng") > 0, "a nonce is drawn if needed");
    check("C22", (n || !pm.use_nonce) || effects("rng") > 0, "a nonce is drawn if needed");
    check("C24", !(n || !pm.use_nonce) || effects("rng") == 0, "no generator is consulted");
    check("C24", !(t || !pm.use_timestamp) || effects("clock") == 0, "no clock is consulted");
    check("C23", (t || !pm.use_timestamp) || effects("clock") > 0, "the clock is read if needed");
    check("C23", !(t || !pm.use_timestamp) || effects("clock") == 0, "the clock is not read if not needed");
    check("C24", effects("ambient") == effects("rng") + effects("clock"), "no other ambient state");
}

fn count(out: &str, sign: S, q: S, name: S, n: usize) {
    check_count("C08", out, cat(&[name, q]), n, name);
    check_count("C08", sign, cat(&[" parameter(", name, "="]), n, name);
}

fn supplied(out: &str, sign: S, q: S, r: S, name: S, v: S) {
    check_has("C08", out, cat(&[name, q, enc(v), r]), name);
    check_has("C08", sign, cat(&[" parameter(", name, "=", enc2(v), ")"]), name);
}

pub fn e_c08_header() {
    presence(Header, false);
}
pub fn e_c08_form() {
    presence(Form, false);
}
pub fn e_c08_query() {
    presence(Query, false);
}

/// A nonce of the library's own.
fn nonce(mode: Mode) {
    let mut o = Options::new();
    if nd() {
        o.version(true);
    }
    if nd() {
        o.nonce(None);
    }
    let mut s = make(mode, None, &o, PM { use_nonce: true, use_timestamp: false });
    s.serialize_oauth_nonce();
    let base = log_get("base");
    let n = after(base, "oauth_nonce%3D");
    check_nonce("C22", n, "the nonce");
    let (q, r) = if mode == Header { ("=\"", "\",") } else { ("=", "") };
    let out = s.end();
    check_has("C22", &out, cat(&["oauth_nonce", q, n, r]), "the nonce sent is the nonce signed");
    let drawn = effects("rng");
    check("C22", drawn > 0, "a nonce is drawn");
    // another authorization
    let mut s = make(mode, None, &o, PM { use_nonce: true, use_timestamp: false });
    s.serialize_oauth_nonce();
    let n2 = after(log_get("base"), "oauth_nonce%3D");
    check_nonce("C22", n2, "another nonce");
    check("C22", effects("rng") > drawn, "another nonce is drawn");
    check_apart("C22", n, n2, "two nonces");
}
pub fn e_c22_header() {
    nonce(Header);
}
pub fn e_c22_form() {
    nonce(Form);
}
pub fn e_c22_query() {
    nonce(Query);
}

/// A timestamp of the library's own.
fn timestamp(mode: Mode) {
    let mut o = Options::new();
    if nd() {
        o.timestamp(None);
    }
    let mut s = make(mode, None, &o, PM { use_nonce: false, use_timestamp: true });
    s.serialize_oauth_timestamp();
    let (q, r) = if mode == Header { ("=\"", "\",") } else { ("=", "") };
    let t = if clock_ok(1) { dec(sym_u64("now")) } else { "1" };
    check_eq("C23", log_get("base"), cat(&["oauth_timestamp%3D", t]), "the timestamp signed");
    let out = s.end();
    check_has("C23", &out, cat(&["oauth_timestamp", q, t, r]), "the timestamp sent");
    let read = effects("clock");
    check("C23", read > 0, "the clock is read");
    let mut s = make(mode, None, &o, PM { use_nonce: false, use_timestamp: true });
    s.serialize_oauth_timestamp();
    check("C23", effects("clock") > read, "the clock is read for another authorization");
    let t = if clock_ok(2) { dec(sym_u64("now2")) } else { "1" };
    check_eq("C23", log_get("base"), cat(&["oauth_timestamp%3D", t]), "another timestamp");
}
pub fn e_c23_header() {
    timestamp(Header);
}
pub fn e_c23_form() {
    timestamp(Form);
}
pub fn e_c23_query() {
    timestamp(Query);
}
/// A supplied one, any of them.
pub fn e_c23_supplied() {
    let mut o = Options::new();
    let x = sym_u64("timestamp");
    assume_pos(x);
    o.timestamp(NonZeroU64::new(x));
    let mut s = make(Header, None, &o, PM { use_nonce: false, use_timestamp: true });
    s.serialize_oauth_timestamp();
    check_eq("C23", log_get("base"), cat(&["oauth_timestamp%3D", dec(x)]), "a supplied timestamp, signed");
    check_has("C23", &s.end(), cat(&["oauth_timestamp=\"", dec(x), "\","]), "a supplied timestamp, sent");
    check("C23", effects("clock") == 0, "the clock is not read");
}

/// Plain serialization consults nothing.
pub fn e_c24_plain() {
    let mut u = if nd() { Urlencoder::form() } else { Urlencoder::query(String::from(sym_str("uri"))) };
    while nd() {
        let k = fresh_str("k");
        let v = PV::fresh();
        if nd() {
            u.serialize_parameter(k, v);
        } else {
            u.serialize_parameter_encoded(k, v);
        }
    }
    u.serialize_oauth_parameters();
    let _ = u.end();
    check("C24", effects("ambient") == 0, "nothing ambient is consulted");
}
