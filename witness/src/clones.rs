//! A clone goes on exactly like its original, and neither is touched by what the other does.
use crate::lit::nd_below;
use crate::p::*;
use crate::sp::*;
use crate::rec::show;
use core::num::NonZeroU64;
use either::Either;
use oauth1_request::request::AssertSorted;
use oauth1_request::serializer::auth::{Authorizer, Options};
use oauth1_request::serializer::{Recorder, Serializer, Urlencoder};
use oauth1_request::signature_method::rsa_sha1_06 as rsa06;
use oauth1_request::signature_method::rsa_sha1_09 as rsa09;
use oauth1_request::signature_method::{HmacSha1, Plaintext, Sign, SignatureMethod};
use oauth1_request::{Builder, Credentials, Request};
use std::string::String;

const STEPS: usize = 11;

fn step<T: Serializer>(s: &mut T, i: usize, a: S, b: S) {
    match i {
        0 => s.serialize_parameter("a", a),
        1 => s.serialize_parameter_encoded("b", b),
        2 => s.serialize_oauth_callback(),
        3 => s.serialize_oauth_consumer_key(),
        4 => s.serialize_oauth_nonce(),
        5 => s.serialize_oauth_signature_method(),
        6 => s.serialize_oauth_timestamp(),
        7 => s.serialize_oauth_token(),
        8 => s.serialize_oauth_verifier(),
        9 => s.serialize_oauth_version(),
        _ => s.serialize_parameter("z", a),
    }
}

fn steps<T: Serializer>(s: &mut T, from: usize, to: usize, a: S, b: S) {
    let mut i = from;
    while i < to {
        step(s, i, a, b);
        i += 1;
    }
}

/// Clones in the middle of a use, for what `new` makes.
fn serializer<T: Serializer + Clone>(new: impl Fn() -> T, end: impl Fn(T::Output) -> S) {
    let (a, b) = (sym_str("a"), sym_str("b"));
    let mut s = new();
    steps(&mut s, 0, STEPS, a, b);
    let want = end(s.end());
    let k = nd_below(STEPS + 1);
    let mut s = new();
    steps(&mut s, 0, k, a, b);
    let mut t = s.clone();
    // the clone is used first, and differently
    let mut u = t.clone();
    u.serialize_parameter("zz", sym_str("c"));
    end(u.end());
    steps(&mut t, k, STEPS, a, b);
    check_eq("C44", end(t.end()), want, "the result of a clone");
    steps(&mut s, k, STEPS, a, b);
    check_eq("C44", end(s.end()), want, "the result of what was cloned");
}

fn leak(s: String) -> S {
    cat(&[&s])
}

pub fn e_c44_form() {
    serializer(Urlencoder::form, leak);
}
pub fn e_c44_form_with_buf() {
    serializer(|| Urlencoder::form_with_buf(String::from(sym_str("buf"))), leak);
}
pub fn e_c44_query() {
    serializer(|| Urlencoder::query(String::from(sym_str("buf"))), leak);
}
pub fn e_c44_recorder() {
    serializer(Recorder::new, |h| {
        log_set("h", "");
        let mut i = 0;
        while i < h.len() {
            log_add("h", cat(&[show(&h[i]), " "]));
            i += 1;
        }
        log_get("h")
    });
}

fn options<'a>(ts: u64) -> Options<'a> {
    let mut o = Options::new();
    o.nonce(sym_str("nonce")).timestamp(NonZeroU64::new(ts)).callback(sym_str("cb")).verifier(sym_str("vf")).version(true);
    o
}

fn client() -> Credentials<S> {
    Credentials::new(sym_str("ck"), sym_str("sec:cs"))
}
fn token() -> Option<Credentials<S>> {
    if nd() { Some(Credentials::new(sym_str("tk"), sym_str("sec:ts"))) } else { None }
}

fn authorizer<M: SignatureMethod + Clone>(mode: usize, m: M)
where
    M::Sign: Clone,
{
    let ts = sym_u64("timestamp");
    assume_pos(ts);
    let u = sym_str("uri");
    assume_no(u, "?");
    let o = options(ts);
    let t = token();
    let o = &o;
    match mode {
        0 => serializer(|| Authorizer::authorization(sym_str("method"), u, client(), t, o, m.clone()), leak),
        1 => serializer(|| Authorizer::form(sym_str("method"), u, client(), t, o, m.clone()), leak),
        _ => serializer(|| Authorizer::query(sym_str("method"), String::from(u), client(), t, o, m.clone()), leak),
    }
}
pub fn e_c44_header_hmac() {
    authorizer(0, HmacSha1::new());
}
pub fn e_c44_form_hmac() {
    authorizer(1, HmacSha1::new());
}
pub fn e_c44_query_hmac() {
    authorizer(2, HmacSha1::new());
}
pub fn e_c44_header_plaintext() {
    authorizer(0, <Plaintext>::new());
}
pub fn e_c44_query_plaintext() {
    authorizer(2, <Plaintext>::new());
}

fn sign_step<T: Sign>(s: &mut T, i: usize, a: S, n: u64) {
    match i {
        0 => s.request_method(sym_str("method")),
        1 => s.uri(sym_str("uri")),
        2 => s.parameter("a", a),
        3 => s.delimiter(),
        4 => s.consumer_key(a),
        5 => s.delimiter(),
        6 => s.signature_method(),
        7 => s.delimiter(),
        8 => s.timestamp(n),
        9 => s.delimiter(),
        _ => s.version(),
    }
}
fn sign_steps<T: Sign>(s: &mut T, from: usize, to: usize, a: S, n: u64) {
    let mut i = from;
    while i < to {
        sign_step(s, i, a, n);
        i += 1;
    }
}
fn signer<M: SignatureMethod + Clone>(m: M)
where
    M::Sign: Clone,
{
    let (a, n) = (sym_str("a"), sym_u64("timestamp"));
    let (cs, t) = (sym_str("sec:cs"), if nd() { Some(sym_str("sec:ts")) } else { None });
    let mut s = m.clone().sign_with(cs, t);
    sign_steps(&mut s, 0, STEPS, a, n);
    let want = leak(disp(s.end()));
    let k = nd_below(STEPS + 1);
    let mut s = m.sign_with(cs, t);
    sign_steps(&mut s, 0, k, a, n);
    let mut c = s.clone();
    let mut d = c.clone();
    d.parameter("zz", sym_str("c"));
    disp(d.end());
    check("C44", c.use_nonce() == s.use_nonce() && c.use_timestamp() == s.use_timestamp(), "what a clone uses");
    check("C44", c.get_signature_method_name() == s.get_signature_method_name(), "the name of a clone");
    sign_steps(&mut c, k, STEPS, a, n);
    check_eq("C44", &disp(c.end()), want, "the signature of a clone");
    sign_steps(&mut s, k, STEPS, a, n);
    check_eq("C44", &disp(s.end()), want, "the signature of what was cloned");
}
pub fn e_c44_sign_hmac() {
    signer(HmacSha1::new());
}
pub fn e_c44_sign_plaintext() {
    signer(<Plaintext>::new());
}
pub fn e_c44_sign_rsa06() {
    signer(rsa06::RsaSha1::new(sym_obj("sec:rsa")));
}
pub fn e_c44_sign_rsa09() {
    signer(rsa09::RsaSha1::new(sym_obj("sec:rsa")));
}
pub fn e_c44_sign_rsa09_ref() {
    let m = rsa09::RsaSha1::new(sym_obj("sec:rsa"));
    signer(&m);
}
pub fn e_c44_sign_left() {
    signer(Either::<HmacSha1, Plaintext>::Left(HmacSha1::new()));
}
pub fn e_c44_sign_right() {
    signer(Either::<HmacSha1, Plaintext>::Right(<Plaintext>::new()));
}

fn sent<R: Request>(b: &Builder<'static, HmacSha1, S, S>, r: &R) -> S {
    cat(&[&b.authorize(sym_str("method"), sym_str("uri"), r)])
}

/// A builder that is cloned, after which one of the two is changed.
pub fn e_c44_builder() {
    let (ts, ts2) = (sym_u64("timestamp"), sym_u64("timestamp2"));
    assume_pos(ts);
    assume_pos(ts2);
    assume_no(sym_str("uri"), "?");
    let r = AssertSorted::new([("a", sym_str("a"))]);
    let mut b = Builder::<HmacSha1, S, S>::new(client(), HmacSha1::new());
    b.token(token()).nonce(sym_str("nonce")).timestamp(NonZeroU64::new(ts)).version(nd());
    match nd_below(3) {
        0 => {
            b.callback(sym_str("cb"));
        }
        1 => {
            b.verifier(sym_str("vf"));
        }
        _ => {}
    }
    let want = sent(&b, &r);
    let mut c = b.clone();
    check_eq("C44", sent(&c, &r), want, "the result of a cloned builder");
    let change = |x: &mut Builder<'static, HmacSha1, S, S>| {
        x.token(Credentials::new(sym_str("tk2"), sym_str("sec:ts2"))).nonce(sym_str("nonce2")).timestamp(NonZeroU64::new(ts2));
        x.callback(None).verifier(sym_str("vf2")).version(false);
    };
    if nd() {
        change(&mut c);
        check_eq("C44", sent(&b, &r), want, "a builder whose clone is changed");
    } else {
        change(&mut b);
        check_eq("C44", sent(&c, &r), want, "the clone of a builder that is changed");
    }
}

fn fed<R: Request>(r: &R) -> S {
    let h = r.serialize(Recorder::new());
    log_set("h", "");
    let mut i = 0;
    while i < h.len() {
        log_add("h", cat(&[show(&h[i]), " "]));
        i += 1;
    }
    log_get("h")
}

/// Cloned requests.
pub fn e_c44_requests() {
    let s = AssertSorted::new([("a", sym_str("a")), ("oauthy", sym_str("b"))]);
    let t = s.clone();
    check_eq("C44", fed(&t), fed(&s), "a cloned AssertSorted");
    check_eq("C44", fed(&t.clone()), fed(&s), "a cloned AssertSorted");
}
