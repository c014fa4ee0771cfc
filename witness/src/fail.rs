//! Writers and values that report errors, and what is caught in debug builds.
use crate::p::*;
use crate::sp::*;
use crate::auth::{args, options};
use core::fmt::{self, Display, Write};
use oauth1_request as oauth;
use oauth::request::{AssertSorted, ParameterList, Request};
use oauth::serializer::auth::Authorizer;
use oauth::serializer::recorder::Recorder;
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::{HmacSha1, Plaintext, RsaSha1, Sign, SignatureMethod};
use std::string::String;

/// A writer that may fail at any call.
#[derive(Default)]
pub struct FW(String);
fn fail() -> fmt::Result {
    log_set("failed", "yes");
    Err(fmt::Error)
}
impl Write for FW {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if nd() {
            return fail();
        }
        self.0.push_str(s);
        Ok(())
    }
}
impl Display for FW {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
/// A value whose `Display` may fail before, between or after what it writes.
#[derive(Clone, Copy)]
pub struct FD(S, S);
impl Display for FD {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if nd() {
            return fail();
        }
        f.write_str(self.0)?;
        if nd() {
            return fail();
        }
        f.write_str(self.1)?;
        if nd() {
            return fail();
        }
        Ok(())
    }
}
/// A signature method whose signature may fail.
#[derive(Clone)]
pub struct FM;
impl SignatureMethod for FM {
    type Sign = FM;
    fn sign_with(self, _: &str, _: Option<&str>) -> FM {
        self
    }
}
impl Sign for FM {
    type Signature = FD;
    fn get_signature_method_name(&self) -> &'static str {
        "FM"
    }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: Display>(&mut self, uri: T) {
        let mut s = String::new();
        write!(s, "{}", uri).unwrap();
    }
    fn parameter<V: Display>(&mut self, _: &str, value: V) {
        let mut s = String::new();
        write!(s, "{}", value).unwrap();
    }
    fn delimiter(&mut self) {}
    fn end(self) -> FD {
        FD(sym_str("sig1"), sym_str("sig2"))
    }
}

fn begin() {
    log_set("failed", "");
    may_panic();
}
fn end() {
    check_eq("C36", log_get("failed"), "", "nothing returns normally after an error");
}

fn drive<T: Serializer>(mut s: T, v: FD) -> T::Output {
    s.serialize_parameter("a", v);
    s.serialize_parameter_encoded("b", v);
    s.serialize_oauth_consumer_key();
    s.serialize_oauth_token();
    s.serialize_parameter("p", sym_str("v"));
    s.serialize_parameter_encoded("q", sym_str("v"));
    s.end()
}
const V: FD = FD("x", "y");
fn uri() -> FD {
    FD(sym_str("u1"), sym_str("u2"))
}

fn header<M: SignatureMethod>(m: M) {
    let a = args(true);
    let o = options(0);
    begin();
    let s = Authorizer::authorization_with_buf(FW::default(), a.method, uri(), a.client, a.token, &o, m);
    let _ = drive(s, V);
    end();
}
fn form<M: SignatureMethod>(m: M) {
    let a = args(true);
    let o = options(0);
    begin();
    let s = Authorizer::form_with_buf(FW::default(), a.method, uri(), a.client, a.token, &o, m);
    let _ = drive(s, V);
    end();
}
fn query<M: SignatureMethod>(m: M) {
    let a = args(true);
    let o = options(0);
    begin();
    let s = Authorizer::query(a.method, FW(String::from(a.uri)), a.client, a.token, &o, m);
    let _ = drive(s, V);
    end();
}
pub fn e_c36_header_any() {
    header(FM);
}
pub fn e_c36_header_hmac() {
    header(HmacSha1::new());
}
pub fn e_c36_header_plain() {
    header(Plaintext::<FW>::with_buf());
}
pub fn e_c36_form_any() {
    form(FM);
}
pub fn e_c36_form_hmac() {
    form(HmacSha1::new());
}
pub fn e_c36_form_plain() {
    form(Plaintext::<FW>::with_buf());
}
pub fn e_c36_query_any() {
    query(FM);
}
pub fn e_c36_query_hmac() {
    query(HmacSha1::new());
}
pub fn e_c36_query_plain() {
    query(Plaintext::<FW>::with_buf());
}
pub fn e_c36_oauth_parameters() {
    // each of the OAuth parameters, written to a failing writer
    let a = args(true);
    let o = options(7);
    begin();
    let mut s = Authorizer::authorization_with_buf(FW::default(), a.method, a.uri, a.client, a.token, &o, PM::ALL);
    s.serialize_oauth_parameters();
    let _ = s.end();
    end();
}
pub fn e_c36_oauth_parameters_form() {
    let a = args(true);
    let o = options(7);
    begin();
    let mut s = Authorizer::form_with_buf(FW::default(), a.method, a.uri, a.client, a.token, &o, PM::ALL);
    s.serialize_oauth_parameters();
    let _ = s.end();
    end();
}
pub fn e_c36_plain_form() {
    begin();
    let mut s = Urlencoder::form_with_buf(FW::default());
    s.serialize_oauth_parameters();
    let _ = drive(s, V);
    end();
}
pub fn e_c36_plain_query() {
    begin();
    let _ = drive(Urlencoder::query(FW(String::from(sym_str("uri")))), V);
    end();
}
pub fn e_c36_recorder() {
    begin();
    let _ = drive(Recorder::new(), V);
    end();
}
pub fn e_c36_to_form() {
    begin();
    let _ = oauth::to_form(&AssertSorted::new([("a", V), ("b", V)]));
    end();
}
pub fn e_c36_to_query() {
    begin();
    let _ = oauth::to_query(String::from(sym_str("uri")), &AssertSorted::new([("a", V)]));
    end();
}
pub fn e_c36_list() {
    begin();
    let l = ParameterList::new([("a", V)]);
    let _ = l.serialize(Urlencoder::form_with_buf(FW::default()));
    end();
}
pub fn e_c36_builder() {
    let a = args(true);
    begin();
    let mut b = oauth::Builder::new(a.client, FM);
    b.token(a.token);
    b.nonce(sym_str("nonce"));
    let _ = b.authorize("M", uri(), &AssertSorted::new([("a", V)]));
    end();
}
pub fn e_c36_builder_form() {
    let a = args(true);
    begin();
    let mut b = oauth::Builder::new(a.client, FM);
    b.token(a.token);
    b.nonce(sym_str("nonce"));
    let _ = b.to_form("M", uri(), &AssertSorted::new([("a", V)]));
    end();
}
pub fn e_c36_sign_hmac() {
    // the signature itself, displayed by a failing writer
    let mut s = HmacSha1::new().sign_with("c", None);
    s.request_method("M");
    begin();
    s.uri(uri());
    s.parameter("k", V);
    let r = write!(FW::default(), "{}", s.end());
    check("C36", r.is_err() == (log_get("failed") != ""), "an error of the writer is returned");
}
pub fn e_c36_sign_plain() {
    begin();
    let s = Plaintext::<FW>::with_buf().sign_with("c", Some("t"));
    end();
    let g = s.end();
    let r = write!(FW::default(), "{}", g);
    check("C36", r.is_err() == (log_get("failed") != ""), "an error of the writer is returned");
}

// Debug builds.

fn keys<T: Serializer>(mut s: T, first: usize, second: usize) -> T::Output {
    // the second key is less than the first one
    let (k1, k2) = (sym_str("k1"), sym_str("k2"));
    assume_lt(k2, k1);
    panic_prop("C38");
    if first == 0 {
        s.serialize_parameter(k1, sym_str("v1"));
    } else {
        s.serialize_parameter_encoded(k1, sym_str("v1"));
    }
    expect_panic("C38", "", "keys out of order");
    if second == 0 {
        s.serialize_parameter(k2, sym_str("v2"));
    } else {
        s.serialize_parameter_encoded(k2, sym_str("v2"));
    }
    s.end()
}
fn order(mode: usize, first: usize, second: usize) {
    let a = args(true);
    let o = options(7);
    panic_prop("C38");
    match mode {
        0 => {
            let _ = keys(Authorizer::authorization(a.method, a.uri, a.client, a.token, &o, PM::ALL), first, second);
        }
        1 => {
            let _ = keys(Authorizer::form(a.method, a.uri, a.client, a.token, &o, PM::ALL), first, second);
        }
        _ => {
            let _ = keys(Authorizer::query(a.method, String::from(a.uri), a.client, a.token, &o, PM::ALL), first, second);
        }
    }
}
pub fn e_c38_order_header_raw() {
    order(0, 0, 0);
}
pub fn e_c38_order_header_encoded() {
    order(0, 1, 1);
}
pub fn e_c38_order_header_mixed() {
    order(0, 0, 1);
}
pub fn e_c38_order_form_raw() {
    order(1, 0, 0);
}
pub fn e_c38_order_form_mixed() {
    order(1, 1, 0);
}
pub fn e_c38_order_query_encoded() {
    order(2, 1, 1);
}
pub fn e_c38_order_query_mixed() {
    order(2, 0, 1);
}
pub fn e_c38_order_after_oauth() {
    let a = args(true);
    let o = options(7);
    panic_prop("C38");
    let mut s = Authorizer::authorization(a.method, a.uri, a.client, a.token, &o, PM::ALL);
    s.serialize_oauth_parameters();
    let k = sym_str("k");
    assume_lt(k, "oauth_version");
    expect_panic("C38", "", "a key out of order after the OAuth parameters");
    s.serialize_parameter(k, "v");
    let _ = s.end();
}
/// The OAuth parameter with the number.
fn oauth_key<T: Serializer>(s: &mut T, i: usize) -> S {
    match i {
        0 => {
            s.serialize_oauth_callback();
            "oauth_callback"
        }
        1 => {
            s.serialize_oauth_consumer_key();
            "oauth_consumer_key"
        }
        2 => {
            s.serialize_oauth_nonce();
            "oauth_nonce"
        }
        3 => {
            s.serialize_oauth_signature_method();
            "oauth_signature_method"
        }
        4 => {
            s.serialize_oauth_timestamp();
            "oauth_timestamp"
        }
        5 => {
            s.serialize_oauth_token();
            "oauth_token"
        }
        6 => {
            s.serialize_oauth_verifier();
            "oauth_verifier"
        }
        _ => {
            s.serialize_oauth_version();
            "oauth_version"
        }
    }
}
fn before_oauth(i: usize) {
    let a = args(true);
    let o = options(7);
    let mut s = Authorizer::form(a.method, a.uri, a.client, a.token, &o, PM::ALL);
    let k = sym_str("k");
    const KEYS: [S; 8] = ["oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature_method", "oauth_timestamp", "oauth_token", "oauth_verifier", "oauth_version"];
    assume_lt(KEYS[i], k);
    panic_prop("C38");
    s.serialize_parameter(k, "v");
    expect_panic("C38", "", "an OAuth parameter out of order");
    oauth_key(&mut s, i);
    let _ = s.end();
}
pub fn e_c38_before_oauth_0() {
    before_oauth(0);
}
pub fn e_c38_before_oauth_1() {
    before_oauth(1);
}
pub fn e_c38_before_oauth_2() {
    before_oauth(2);
}
pub fn e_c38_before_oauth_3() {
    before_oauth(3);
}
pub fn e_c38_before_oauth_4() {
    before_oauth(4);
}
pub fn e_c38_before_oauth_5() {
    before_oauth(5);
}
pub fn e_c38_before_oauth_6() {
    before_oauth(6);
}
pub fn e_c38_before_oauth_7() {
    before_oauth(7);
}
fn after_oauth(i: usize) {
    let a = args(true);
    let o = options(7);
    let mut s = Authorizer::query(a.method, String::from(a.uri), a.client, a.token, &o, PM::ALL);
    panic_prop("C38");
    let p = oauth_key(&mut s, i);
    let k = sym_str("k");
    if nd() {
        // not less
        assume_le(p, k);
        s.serialize_parameter(k, "v");
        check("C38", true, "keys in order do not panic");
    } else {
        assume_lt(k, p);
        expect_panic("C38", "", "a key less than an OAuth parameter");
        s.serialize_parameter_encoded(k, "v");
    }
    let _ = s.end();
}
pub fn e_c38_after_oauth_0() {
    after_oauth(0);
}
pub fn e_c38_after_oauth_1() {
    after_oauth(1);
}
pub fn e_c38_after_oauth_2() {
    after_oauth(2);
}
pub fn e_c38_after_oauth_3() {
    after_oauth(3);
}
pub fn e_c38_after_oauth_4() {
    after_oauth(4);
}
pub fn e_c38_after_oauth_5() {
    after_oauth(5);
}
pub fn e_c38_after_oauth_6() {
    after_oauth(6);
}
pub fn e_c38_after_oauth_7() {
    after_oauth(7);
}
/// Only the last key counts, whatever came before it.
pub fn e_c38_third() {
    let a = args(false);
    let o = options(0);
    let mut s = Authorizer::authorization(a.method, a.uri, a.client, a.token, &o, PM::ALL);
    let (k1, k2, k3) = (sym_str("k1"), sym_str("k2"), sym_str("k3"));
    assume_le(k1, k2);
    panic_prop("C38");
    s.serialize_parameter(k1, "v");
    s.serialize_parameter_encoded(k2, "v");
    if nd() {
        assume_le(k2, k3);
        s.serialize_parameter(k3, "v");
        check("C38", true, "keys in order do not panic");
    } else {
        assume_le(k1, k3);
        assume_lt(k3, k2);
        expect_panic("C38", "", "keys out of order");
        s.serialize_parameter(k3, "v");
    }
    let _ = s.end();
}
pub fn e_c38_repeat() {
    let a = args(false);
    let o = options(0);
    let mut s = Authorizer::form(a.method, a.uri, a.client, a.token, &o, PM::ALL);
    let k = sym_str("k");
    panic_prop("C38");
    s.serialize_parameter(k, "v");
    s.serialize_parameter(k, "w");
    s.serialize_parameter_encoded(k, "v");
    check("C38", true, "repeated keys do not panic");
    let _ = s.end();
}
fn question(mode: usize, first: bool) {
    let a = args(true);
    let o = options(7);
    let q = cat(&[sym_str("u1"), "?", sym_str("u2")]);
    let uri = if first { PV(q, sym_str("u3")) } else { PV(sym_str("u3"), q) };
    panic_prop("C38");
    expect_panic("C38", "", "a question mark in the URI");
    match mode {
        0 => drop(Authorizer::authorization(a.method, uri, a.client, a.token, &o, PM::ALL).end()),
        1 => drop(Authorizer::form(a.method, uri, a.client, a.token, &o, PM::ALL).end()),
        2 => drop(Authorizer::query(a.method, String::from(q), a.client, a.token, &o, PM::ALL).end()),
        3 => drop(Authorizer::authorization_with_buf(String::new(), a.method, uri, a.client, a.token, &o, PM::ALL).end()),
        4 => drop(Authorizer::form_with_buf(String::new(), a.method, uri, a.client, a.token, &o, PM::ALL).end()),
        5 => drop(oauth::Builder::<_, S, S>::new(a.client, PM::ALL).nonce("n").authorize(a.method, uri, &())),
        _ => drop(oauth::Builder::<_, S, S>::new(a.client, PM::ALL).nonce("n").to_form(a.method, uri, &())),
    }
}
/// Any use of the URI panics.
pub fn question_panics(q: S) {
    let a = args(true);
    let o = options(7);
    panic_prop("C38");
    expect_panic("C38", "", "a question mark in a constant URI");
    if nd() {
        drop(Authorizer::authorization(a.method, q, a.client, a.token, &o, PM::ALL).end());
    } else if nd() {
        drop(Authorizer::form(a.method, PV("", q), a.client, a.token, &o, PM::ALL).end());
    } else if nd() {
        drop(Authorizer::form(a.method, PV(q, "x"), a.client, a.token, &o, PM::ALL).end());
    } else {
        drop(Authorizer::query(a.method, String::from(q), a.client, a.token, &o, PM::ALL).end());
    }
}
pub fn e_c38_question_header() {
    question(0, true);
}
pub fn e_c38_question_header_late() {
    question(0, false);
}
pub fn e_c38_question_form() {
    question(1, true);
}
pub fn e_c38_question_form_late() {
    question(1, false);
}
pub fn e_c38_question_query() {
    question(2, true);
}
pub fn e_c38_question_header_buf() {
    question(3, false);
}
pub fn e_c38_question_form_buf() {
    question(4, false);
}
pub fn e_c38_question_builder() {
    question(5, true);
}
pub fn e_c38_question_builder_form() {
    question(6, true);
}
pub fn e_c38_uri_ok() {
    let a = args(true);
    let o = options(7);
    let (x, y) = (sym_str("u1"), sym_str("u2"));
    assume_no(x, "?");
    assume_no(y, "?");
    panic_prop("C38");
    drop(Authorizer::authorization(a.method, PV(x, y), a.client, a.token, &o, PM::ALL).end());
    drop(Authorizer::form(a.method, PV(x, y), a.client, a.token, &o, PM::ALL).end());
    drop(Authorizer::query(a.method, String::from(x), a.client, a.token, &o, PM::ALL).end());
    check("C38", true, "a URI without a question mark does not panic");
}
