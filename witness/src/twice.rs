//! Several authorizations one after another: nothing of an earlier one shows in a later one.
use crate::lit::nd_below;
use crate::p::*;
use crate::sigs::{hmac, key};
use core::num::NonZeroU64;
use oauth1_request as oauth;
use oauth1_request::signature_method::HmacSha1;
use oauth1_request::{Builder, Credentials, ParameterList, Token};
use std::string::String;

/// What one authorization is given.
#[derive(Clone, Copy)]
struct In {
    m: S,
    u: S,
    ck: S,
    cs: S,
    t: Option<(S, S)>,
    n: S,
    ts: u64,
    v: S,
}

fn any() -> In {
    let u = fresh_str("uri");
    assume_no(u, "?");
    let ts = sym_u64("timestamp");
    assume_pos(ts);
    let t = if nd() { Some((fresh_str("tk"), fresh_str("sec:ts"))) } else { None };
    In { m: fresh_str("method"), u, ck: fresh_str("ck"), cs: fresh_str("sec:cs"), t, n: fresh_str("nonce"), ts, v: fresh_str("v") }
}

/// The same, but for one thing.
fn but(a: In, i: usize) -> In {
    let mut b = a;
    match i {
        0 => b.m = fresh_str("method"),
        1 => {
            b.u = fresh_str("uri");
            assume_no(b.u, "?");
        }
        2 => b.ck = fresh_str("ck"),
        3 => b.cs = fresh_str("sec:cs"),
        4 => {
            b.t = match a.t {
                Some((k, _)) => Some((k, fresh_str("sec:ts"))),
                None => Some((fresh_str("tk"), fresh_str("sec:ts"))),
            }
        }
        5 => {
            b.t = match a.t {
                Some((_, s)) => Some((fresh_str("tk"), s)),
                None => Some((a.ck, a.cs)),
            }
        }
        6 => b.n = fresh_str("nonce"),
        7 => {
            b.ts = sym_u64("timestamp2");
            assume_pos(b.ts);
        }
        8 => b.v = fresh_str("v"),
        9 => b.t = None,
        _ => {}
    }
    b
}

fn signature(a: &In) -> S {
    let t = match a.t {
        Some((k, _)) => cat(&["%26oauth_token%3D", enc2(k)]),
        None => "",
    };
    let base = cat(&[
        a.m, "&", enc(a.u), "&a%3D", enc2(a.v), "%26oauth_consumer_key%3D", enc2(a.ck), "%26oauth_nonce%3D", enc2(a.n),
        "%26oauth_signature_method%3DHMAC-SHA1%26oauth_timestamp%3D", dec(a.ts), t,
    ]);
    let k = match a.t {
        Some((_, s)) => key(a.cs, Some(s)),
        None => key(a.cs, None),
    };
    hmac(k, base)
}

fn want(a: &In, mode: usize) -> S {
    let s = signature(a);
    if mode == 0 {
        let t = match a.t {
            Some((k, _)) => cat(&[",oauth_token=\"", enc(k), "\""]),
            None => "",
        };
        return cat(&[
            "OAuth oauth_consumer_key=\"", enc(a.ck), "\",oauth_nonce=\"", enc(a.n), "\",oauth_signature_method=\"HMAC-SHA1\",oauth_timestamp=\"",
            dec(a.ts), "\"", t, ",oauth_signature=\"", s, "\"",
        ]);
    }
    let t = match a.t {
        Some((k, _)) => cat(&["&oauth_token=", enc(k)]),
        None => "",
    };
    let f = cat(&[
        "a=", enc(a.v), "&oauth_consumer_key=", enc(a.ck), "&oauth_nonce=", enc(a.n), "&oauth_signature_method=HMAC-SHA1&oauth_timestamp=", dec(a.ts),
        t, "&oauth_signature=", s,
    ]);
    if mode == 1 { f } else { cat(&[a.u, "?", f]) }
}

fn set(b: &mut Builder<'static, HmacSha1, S, S>, a: &In) {
    b.nonce(a.n).timestamp(NonZeroU64::new(a.ts));
    b.token(match a.t {
        Some((k, s)) => Some(Credentials::new(k, s)),
        None => None,
    });
}

fn run(b: &Builder<'static, HmacSha1, S, S>, a: &In, mode: usize) {
    let r = ParameterList::new([("a", a.v)]);
    let out = match mode {
        0 => b.authorize(a.m, a.u, &r),
        1 => b.to_form(a.m, a.u, &r),
        _ => b.to_query(a.m, String::from(a.u), &r),
    };
    check_eq("C24", &out, want(a, mode), "an authorization after others");
}

fn twice(mode: usize) {
    let a = any();
    let mut x = Builder::<HmacSha1, S, S>::new(Credentials::new(a.ck, a.cs), HmacSha1::new());
    set(&mut x, &a);
    run(&x, &a, mode);
    let b = if nd() { any() } else { but(a, nd_below(11)) };
    let mut y = Builder::<HmacSha1, S, S>::new(Credentials::new(b.ck, b.cs), HmacSha1::new());
    set(&mut y, &b);
    run(&y, &b, mode);
    run(&x, &a, mode);
}
pub fn e_c24_twice_header() {
    twice(0)
}
pub fn e_c24_twice_form() {
    twice(1)
}
pub fn e_c24_twice_query() {
    twice(2)
}

/// One builder for several requests, with its options changed in between.
fn reuse(m: usize) {
    let a = any();
    let mut x = Builder::<HmacSha1, S, S>::new(Credentials::new(a.ck, a.cs), HmacSha1::new());
    set(&mut x, &a);
    run(&x, &a, m);
    let mut b = any();
    b.ck = a.ck;
    b.cs = a.cs;
    if nd() {
        set(&mut x, &b);
    } else {
        b.n = a.n;
        b.ts = a.ts;
        b.t = a.t;
    }
    run(&x, &b, nd_below(3));
    set(&mut x, &a);
    run(&x, &a, m);
}
pub fn e_c24_reuse_header() {
    reuse(0)
}
pub fn e_c24_reuse_form() {
    reuse(1)
}
pub fn e_c24_reuse_query() {
    reuse(2)
}
