//! Authorizer: what is written and what is signed.
use crate::p::*;
use crate::sp::*;
use core::fmt::Write;
use core::num::NonZeroU64;
use oauth1_request::serializer::auth::{Authorizer, Options};
use oauth1_request::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth1_request::{Credentials, Request};
use std::string::String;

/// What an authorization must do, kept step by step in the globals "wsign" and "wout".
pub struct Spec {
    pub mode: Mode,
    /// parameters signed so far
    pub first: bool,
    /// parameters written so far
    pub wfirst: bool,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Header,
    Form,
    Query,
}

impl Spec {
    pub fn begin(mode: Mode, buf: S, method: S, uri: S, cs: S, ts: Option<S>) -> Spec {
        log_set("sign", "");
        log_set("base", "");
        log_set("wbase", "");
        log_set("wout", match mode {
            Mode::Header => cat(&[buf, "OAuth "]),
            _ => buf,
        });
        let t = match ts {
            Some(t) => cat(&["Some(", t, ")"]),
            None => "None",
        };
        log_set("wsign", cat(&["new(", cs, ",", t, ") method(", method, ") uri(", enc(uri), ")"]));
        Spec { mode, first: true, wfirst: true }
    }
    fn signed(&mut self, k: S, v: S) {
        if !self.first {
            log_add("wsign", " delimiter");
            log_add("wbase", "%26");
        }
        self.first = false;
        log_add("wsign", cat(&[" parameter(", k, "=", v, ")"]));
        log_add("wbase", cat(&[k, "%3D", v]));
    }
    fn written(&mut self, k: S, v: S) {
        if self.mode == Mode::Header {
            log_add("wout", cat(&[k, "=\"", v, "\","]));
        } else {
            self.pair(k, v);
        }
    }
    fn pair(&mut self, k: S, v: S) {
        if self.wfirst {
            if self.mode == Mode::Query {
                log_add("wout", "?");
            }
        } else {
            log_add("wout", "&");
        }
        self.wfirst = false;
        log_add("wout", cat(&[k, "=", v]));
    }
    pub fn oauth(&mut self, k: S, v: S) {
        self.written(k, enc(v));
        self.signed(k, enc2(v));
    }
    pub fn param(&mut self, k: S, encoded: S) {
        if self.mode != Mode::Header {
            self.pair(k, encoded);
        }
        self.signed(k, enc(encoded));
    }
    pub fn end(&mut self) {
        log_add("wsign", " end");
        if self.mode == Mode::Header {
            log_add("wout", cat(&["oauth_signature=\"", sig(), "\""]));
        } else {
            self.pair("oauth_signature", sig());
        }
    }
}

pub struct Args {
    pub method: S,
    pub uri: S,
    pub client: Credentials<S>,
    pub token: Option<Credentials<S>>,
}

pub fn args(token: bool) -> Args {
    let uri = sym_str("uri");
    assume_no(uri, "?");
    Args {
        method: sym_str("method"),
        uri,
        client: Credentials::new(sym_str("ck"), sym_str("sec:cs")),
        token: if token { Some(Credentials::new(sym_str("tk"), sym_str("sec:ts"))) } else { None },
    }
}

pub fn options(mask: u32) -> Options<'static> {
    let mut o = Options::new();
    if mask & 1 != 0 {
        o.callback(sym_str("callback"));
    }
    if mask & 2 != 0 {
        o.verifier(sym_str("verifier"));
    }
    if mask & 4 != 0 {
        o.version(true);
    }
    o.nonce(sym_str("nonce"));
    let t = sym_u64("timestamp");
    assume_pos(t);
    o.timestamp(NonZeroU64::new(t));
    o
}

/// Any number of request parameters with keys from `*prev` to `next`.
fn more<T: Serializer>(s: &mut T, spec: &mut Spec, prev: &mut S, next: S) {
    while nd() {
        let k = fresh_str("k");
        assume_le(*prev, k);
        assume_le(k, next);
        let v = PV::fresh();
        if nd() {
            s.serialize_parameter(k, v);
            spec.param(k, enc(v.s()));
        } else {
            s.serialize_parameter_encoded(k, v);
            spec.param(k, v.s());
        }
        *prev = k;
    }
    *prev = next;
}

/// The most general use of an authorizer.
fn drive<T: Serializer>(mut s: T, spec: &mut Spec, a: &Args, mask: u32, pm: &PM, any: bool) -> T::Output {
    let mut prev = "";
    more(&mut s, spec, &mut prev, "oauth_callback");
    s.serialize_oauth_callback();
    if mask & 1 != 0 {
        spec.oauth("oauth_callback", sym_str("callback"));
    }
    if any { more(&mut s, spec, &mut prev, "oauth_consumer_key"); }
    s.serialize_oauth_consumer_key();
    spec.oauth("oauth_consumer_key", sym_str("ck"));
    if any { more(&mut s, spec, &mut prev, "oauth_nonce"); }
    s.serialize_oauth_nonce();
    if pm.use_nonce {
        spec.oauth("oauth_nonce", sym_str("nonce"));
    }
    if any { more(&mut s, spec, &mut prev, "oauth_signature_method"); }
    s.serialize_oauth_signature_method();
    spec.oauth("oauth_signature_method", "PM");
    if any { more(&mut s, spec, &mut prev, "oauth_timestamp"); }
    s.serialize_oauth_timestamp();
    if pm.use_timestamp {
        spec.oauth("oauth_timestamp", dec(sym_u64("timestamp")));
    }
    if any { more(&mut s, spec, &mut prev, "oauth_token"); }
    s.serialize_oauth_token();
    if a.token.is_some() {
        spec.oauth("oauth_token", sym_str("tk"));
    }
    if any { more(&mut s, spec, &mut prev, "oauth_verifier"); }
    s.serialize_oauth_verifier();
    if mask & 2 != 0 {
        spec.oauth("oauth_verifier", sym_str("verifier"));
    }
    if any { more(&mut s, spec, &mut prev, "oauth_version"); }
    s.serialize_oauth_version();
    if mask & 4 != 0 {
        spec.oauth("oauth_version", "1.0");
    }
    if !any {
        prev = "oauth_version";
    }
    while nd() {
        let k = fresh_str("k");
        assume_le(prev, k);
        let v = PV::fresh();
        s.serialize_parameter(k, v);
        spec.param(k, enc(v.s()));
        prev = k;
    }
    spec.end();
    s.end()
}

fn auth(mode: Mode, mask: u32, token: bool, pm: PM, any: bool) {
    let a = args(token);
    let o = options(mask);
    let ts = a.token.map(|t| t.secret);
    let out = match mode {
        Mode::Header => {
            let mut spec = Spec::begin(mode, sym_str("buf"), a.method, a.uri, sym_str("sec:cs"), ts);
            let buf = String::from(sym_str("buf"));
            let s = Authorizer::authorization_with_buf(buf, a.method, a.uri, a.client, a.token, &o, pm.clone());
            drive(s, &mut spec, &a, mask, &pm, any)
        }
        Mode::Form => {
            let mut spec = Spec::begin(mode, sym_str("buf"), a.method, a.uri, sym_str("sec:cs"), ts);
            let buf = String::from(sym_str("buf"));
            let s = Authorizer::form_with_buf(buf, a.method, a.uri, a.client, a.token, &o, pm.clone());
            drive(s, &mut spec, &a, mask, &pm, any)
        }
        Mode::Query => {
            let mut spec = Spec::begin(mode, a.uri, a.method, a.uri, sym_str("sec:cs"), ts);
            let uri = String::from(a.uri);
            let s = Authorizer::query(a.method, uri, a.client, a.token, &o, pm.clone());
            drive(s, &mut spec, &a, mask, &pm, any)
        }
    };
    match mode {
        Mode::Header => check_eq("C06", &out, log_get("wout"), "what is written"),
        _ => {
            check_eq("C05", &out, log_get("wout"), "what is written");
            check_eq("C07", &out, log_get("wout"), "what is written");
        }
    }
    check_eq("C09", log_get("sign"), log_get("wsign"), "calls of the signature method");
    check_eq("C04", log_get("base"), log_get("wbase"), "what is signed");
}

macro_rules! auth_entries {
    ($($name:ident $mode:ident $mask:literal $token:literal $n:literal $t:literal $any:literal;)*) => {
        $(pub fn $name() {
            auth(Mode::$mode, $mask, $token, PM { use_nonce: $n, use_timestamp: $t }, $any);
        })*
    };
}

include!("auth_entries.rs");

pub fn e_c02_piece() {
    let a = args(false);
    let o = options(0);
    let mut s = Authorizer::authorization(a.method, a.uri, a.client, None, &o, PM::ALL);
    log_set("base", "");
    let v = sym_str("v");
    s.serialize_parameter("k", v);
    check_eq("C02", log_get("base"), cat(&["k%3D", enc2(v)]), "raw value");
}

/// A long value of a known shape: no cap, chunk or counter may show up in what is signed.
fn long(v: S) {
    let a = args(false);
    let o = options(0);
    let mut s = Authorizer::authorization(a.method, a.uri, a.client, None, &o, PM::ALL);
    log_set("base", "");
    s.serialize_parameter("k", v);
    check_eq("C02", log_get("base"), cat(&["k%3D", enc2(v)]), "long raw value");
}
const UNRESERVED: S = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~";
const ASCII_RESERVED: S = " !\"#$%&'()*+,/:;<=>?@[\\]^`{|}";
fn part(name: S, n: usize, class: S) -> S {
    let s = sym_str_n(name, n);
    assume_only(s, class);
    s
}
pub fn e_c02_long_unreserved_300() {
    long(part("v", 300, UNRESERVED));
}
pub fn e_c02_long_unreserved_1100() {
    long(part("v", 1100, UNRESERVED));
}
pub fn e_c02_long_unreserved_4200() {
    long(part("v", 4200, UNRESERVED));
}
pub fn e_c02_long_reserved() {
    long(part("v", 300, ASCII_RESERVED));
}
pub fn e_c02_long_mixed() {
    long(cat(&[part("a", 70, UNRESERVED), "%", part("b", 260, UNRESERVED), part("c", 3, ASCII_RESERVED), "\u{e9}\u{20ac}", part("d", 520, UNRESERVED), "\u{1f600}", part("e", 1, UNRESERVED)]));
}
pub fn e_c02_xlong_unreserved() {
    long(part("v", 20000, UNRESERVED));
}
pub fn e_c01_long_mixed() {
    let v = cat(&[part("a", 70, UNRESERVED), "%", part("b", 260, UNRESERVED), part("c", 3, ASCII_RESERVED), "\u{e9}\u{20ac}", part("d", 4200, UNRESERVED), "\u{1f600}", part("e", 1, UNRESERVED)]);
    let mut u = Urlencoder::form();
    u.serialize_parameter("k", v);
    let out = u.end();
    check_eq("C01", &out, cat(&["k=", enc(v)]), "long form value");
    let a = args(false);
    let o = options(0);
    let mut s = Authorizer::form(a.method, a.uri, a.client, None, &o, PM::ALL);
    s.serialize_parameter("k", v);
    let out = s.end();
    check_has("C01", &out, cat(&["k=", enc(v), "&"]), "long form value");
}
