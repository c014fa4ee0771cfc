//! The signature methods: what is hashed, with what key, and what comes out.
use crate::p::*;
use crate::sp::*;
use core::fmt::Display;
use oauth1_request::signature_method::rsa_sha1_06 as rsa06;
use oauth1_request::signature_method::rsa_sha1_09 as rsa09;
use oauth1_request::signature_method::{HmacSha1, Plaintext, Sign, SignatureMethod, HMAC_SHA1, PLAINTEXT};
use std::string::String;

pub fn key(cs: &str, ts: Option<&str>) -> S {
    match ts {
        Some(t) => cat(&[enc(cs), "&", enc(t)]),
        None => cat(&[enc(cs), "&"]),
    }
}

pub fn hmac(key: S, base: S) -> S {
    enc(b64(term("hmac-sha1", &[key, base]).as_bytes()))
}

fn rsa(k: S, base: S) -> S {
    enc(b64(term("rsa-pkcs1v15-sha1", &[k, term("sha1", &[base])]).as_bytes()))
}

/// Any legal use of a `Sign`; what it stands for is logged in "b".
fn feed<T: Sign>(s: &mut T) {
    let m = sym_str("method");
    let u = PV::fresh();
    s.request_method(m);
    s.uri(u);
    log_set("b", cat(&[m, "&", u.s(), "&"]));
    let mut first = true;
    while nd() {
        if !first {
            s.delimiter();
            log_add("b", "%26");
        }
        first = false;
        let k = fresh_str("k");
        let v = PV::fresh();
        s.parameter(k, v);
        log_add("b", cat(&[k, "%3D", v.s()]));
    }
}

pub fn e_c03_hmac_params() {
    let mut s = HMAC_SHA1.sign_with("c", Some("t"));
    feed(&mut s);
    let out = disp(s.end());
    check_eq("C03", &out, hmac("c&t", log_get("b")), "what HMAC-SHA1 hashes");
}

pub fn e_c03_rsa09_params() {
    let k: rsa09::RsaPrivateKey = sym_obj("sec:rsa");
    let mut s = rsa09::RsaSha1::new(k).sign_with("c", Some("t"));
    feed(&mut s);
    let out = disp(s.end());
    check_eq("C03", &out, rsa(sym_str("sec:rsa"), log_get("b")), "what RSA-SHA1 (rsa 0.9) hashes");
}

pub fn e_c03_rsa09_ref_params() {
    let k: rsa09::RsaPrivateKey = sym_obj("sec:rsa");
    let m = rsa09::RsaSha1::new(k);
    let mut s = (&m).sign_with("c", Some("t"));
    feed(&mut s);
    let out = disp(s.end());
    check_eq("C03", &out, rsa(sym_str("sec:rsa"), log_get("b")), "what &RSA-SHA1 (rsa 0.9) hashes");
}

pub fn e_c03_rsa06_params() {
    let k: rsa06::RsaPrivateKey = sym_obj("sec:rsa");
    let mut s = rsa06::RsaSha1::new(k).sign_with("c", Some("t"));
    feed(&mut s);
    let out = disp(s.end());
    check_eq("C03", &out, rsa(sym_str("sec:rsa"), log_get("b")), "what RSA-SHA1 (rsa 0.6) hashes");
}

pub fn e_c03_rsa06_ref_params() {
    let k: rsa06::RsaPrivateKey = sym_obj("sec:rsa");
    let m = rsa06::RsaSha1::new(k);
    let mut s = (&m).sign_with("c", Some("t"));
    feed(&mut s);
    let out = disp(s.end());
    check_eq("C03", &out, rsa(sym_str("sec:rsa"), log_get("b")), "what &RSA-SHA1 (rsa 0.6) hashes");
}

/// The methods of `Sign` for the OAuth parameters.
fn feed_oauth<T: Sign>(s: &mut T, name: S) {
    s.request_method("M");
    s.uri("U");
    let v = PV::fresh();
    let t = sym_u64("timestamp");
    s.callback(v);
    s.delimiter();
    s.consumer_key(v);
    s.delimiter();
    s.nonce(v);
    s.delimiter();
    s.signature_method();
    s.delimiter();
    s.timestamp(t);
    s.delimiter();
    s.token(v);
    s.delimiter();
    s.verifier(v);
    s.delimiter();
    s.version();
    log_set(
        "b",
        cat(&[
            "M&U&oauth_callback%3D", v.s(), "%26oauth_consumer_key%3D", v.s(), "%26oauth_nonce%3D", v.s(),
            "%26oauth_signature_method%3D", name, "%26oauth_timestamp%3D", dec(t), "%26oauth_token%3D", v.s(),
            "%26oauth_verifier%3D", v.s(), "%26oauth_version%3D1.0",
        ]),
    );
}

pub fn e_c03_hmac_oauth() {
    let mut s = HMAC_SHA1.sign_with("c", None);
    feed_oauth(&mut s, "HMAC-SHA1");
    check_eq("C03", &disp(s.end()), hmac("c&", log_get("b")), "the OAuth parameters, HMAC-SHA1");
}

pub fn e_c03_rsa09_oauth() {
    let k: rsa09::RsaPrivateKey = sym_obj("sec:rsa");
    let mut s = rsa09::RsaSha1::new(k).sign_with("c", None);
    feed_oauth(&mut s, "RSA-SHA1");
    check_eq("C03", &disp(s.end()), rsa(sym_str("sec:rsa"), log_get("b")), "the OAuth parameters, RSA-SHA1 (rsa 0.9)");
}

pub fn e_c03_rsa06_oauth() {
    let k: rsa06::RsaPrivateKey = sym_obj("sec:rsa");
    let mut s = rsa06::RsaSha1::new(k).sign_with("c", None);
    feed_oauth(&mut s, "RSA-SHA1");
    check_eq("C03", &disp(s.end()), rsa(sym_str("sec:rsa"), log_get("b")), "the OAuth parameters, RSA-SHA1 (rsa 0.6)");
}

fn feed_const<T: Sign>(s: &mut T) {
    s.request_method("M");
    s.uri("U");
    s.parameter("k", "v");
}

const BASE: S = "M&U&k%3Dv";

pub fn e_c13_hmac_token() {
    let (cs, ts) = (sym_str("sec:cs"), sym_str("sec:ts"));
    let mut s = HMAC_SHA1.sign_with(cs, Some(ts));
    feed_const(&mut s);
    check_eq("C13", &disp(s.end()), hmac(key(cs, Some(ts)), BASE), "the key of HMAC-SHA1");
}

pub fn e_c13_hmac_no_token() {
    let cs = sym_str("sec:cs");
    let mut s = HMAC_SHA1.sign_with(cs, None);
    feed_const(&mut s);
    check_eq("C13", &disp(s.end()), hmac(key(cs, None), BASE), "the key of HMAC-SHA1 without a token");
}

pub fn e_c13_plaintext() {
    let (cs, ts) = (sym_str("sec:cs"), sym_str("sec:ts"));
    let t = if nd() { Some(ts) } else { None };
    let mut s = PLAINTEXT.sign_with(cs, t);
    feed_const(&mut s);
    check_eq("C13", &disp(s.end()), enc(key(cs, t)), "the key of PLAINTEXT");
}

/// Any way of splitting the key, and any length.
pub fn e_c14_hmac() {
    let (cs, ts) = (sym_str("sec:cs"), sym_str("sec:ts"));
    let t = if nd() { Some(ts) } else { None };
    let mut s = HMAC_SHA1.sign_with(cs, t);
    feed_const(&mut s);
    check_eq("C14", &disp(s.end()), hmac(key(cs, t), BASE), "the key of HMAC-SHA1, of any length");
}

/// Keeps a stand-in of the analyser reachable.
pub fn e_c14_plaintext() {
    let cs = sym_str("sec:cs");
    let mut s = String::new();
    let mut f = core::fmt::Formatter::new(&mut s, Default::default());
    let _ = crate::shims::two_pieces(&mut f, "a", "b");
    check_eq("C14", &disp(PLAINTEXT.sign_with(cs, None).end()), enc(cat(&[enc(cs), "&"])), "the key of PLAINTEXT");
}

pub fn e_c15_plaintext() {
    let (cs, ts) = (sym_str("sec:cs"), sym_str("sec:ts"));
    let t = if nd() { Some(ts) } else { None };
    let mut s = Plaintext::<String>::with_buf().sign_with(cs, t);
    feed(&mut s);
    check_charset("C15", &disp(s.end()), UNRESERVED, "PLAINTEXT");
}

const UNRESERVED: S = "%-._~0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";

pub fn e_c15_hmac() {
    let mut s = HMAC_SHA1.sign_with("c", None);
    feed(&mut s);
    check_charset("C15", &disp(s.end()), UNRESERVED, "HMAC-SHA1");
}

pub fn e_c15_rsa09() {
    let k: rsa09::RsaPrivateKey = sym_obj("sec:rsa");
    let mut s = rsa09::RsaSha1::new(k).sign_with("c", None);
    feed(&mut s);
    check_charset("C15", &disp(s.end()), UNRESERVED, "RSA-SHA1 (rsa 0.9)");
}

pub fn e_c15_rsa06() {
    let k: rsa06::RsaPrivateKey = sym_obj("sec:rsa");
    let mut s = rsa06::RsaSha1::new(k).sign_with("c", None);
    feed(&mut s);
    check_charset("C15", &disp(s.end()), UNRESERVED, "RSA-SHA1 (rsa 0.6)");
}

pub fn e_c15_hmac_b64() {
    let mut s = HMAC_SHA1.sign_with("c", None);
    feed_const(&mut s);
    check_eq("C15", &disp(s.end()), hmac("c&", BASE), "base64 of the MAC, percent-encoded");
}

pub fn e_c15_rsa09_b64() {
    let k: rsa09::RsaPrivateKey = sym_obj("sec:rsa");
    let mut s = rsa09::RsaSha1::new(k).sign_with("c", None);
    feed_const(&mut s);
    check_eq("C15", &disp(s.end()), rsa(sym_str("sec:rsa"), BASE), "base64 of the signature, percent-encoded");
}

pub fn e_c15_rsa06_b64() {
    let k: rsa06::RsaPrivateKey = sym_obj("sec:rsa");
    let mut s = rsa06::RsaSha1::new(k).sign_with("c", None);
    feed_const(&mut s);
    check_eq("C15", &disp(s.end()), rsa(sym_str("sec:rsa"), BASE), "base64 of the signature, percent-encoded");
}

pub fn e_c16_names() {
    let (cs, ts) = (sym_str("sec:cs"), sym_str("sec:ts"));
    let t = if nd() { Some(ts) } else { None };
    check_eq("C16", HMAC_SHA1.sign_with(cs, t).get_signature_method_name(), "HMAC-SHA1", "name");
    check_eq("C16", HmacSha1::new().sign_with(cs, t).get_signature_method_name(), "HMAC-SHA1", "name");
    check_eq("C16", HmacSha1::default().sign_with(cs, t).get_signature_method_name(), "HMAC-SHA1", "name");
    check_eq("C16", PLAINTEXT.sign_with(cs, t).get_signature_method_name(), "PLAINTEXT", "name");
    check_eq("C16", Plaintext::<String>::default().sign_with(cs, t).get_signature_method_name(), "PLAINTEXT", "name");
}

fn uses<T: Sign>(s: T, n: S) {
    check("C16", s.use_nonce(), n);
    check("C16", s.use_timestamp(), n);
}

pub fn e_c16_uses() {
    let cs = sym_str("sec:cs");
    uses(HMAC_SHA1.sign_with(cs, None), "HMAC-SHA1 uses a nonce and a timestamp");
    uses(PLAINTEXT.sign_with(cs, None), "PLAINTEXT uses a nonce and a timestamp");
    let k: rsa09::RsaPrivateKey = sym_obj("sec:rsa");
    uses(rsa09::RsaSha1::new(k).sign_with(cs, None), "RSA-SHA1 uses a nonce and a timestamp");
    let k: rsa06::RsaPrivateKey = sym_obj("sec:rsa");
    uses(rsa06::RsaSha1::new(k).sign_with(cs, None), "RSA-SHA1 uses a nonce and a timestamp");
}

pub fn e_c16_hmac() {
    let mut s = HMAC_SHA1.sign_with("c", None);
    feed_const(&mut s);
    check_eq("C16", &disp(s.end()), hmac("c&", BASE), "the algorithm of HMAC-SHA1");
}

macro_rules! rsa16 {
    ($($e:ident $e2:ident $e3:ident $m:ident;)*) => { $(
        pub fn $e() {
            let k: $m::RsaPrivateKey = sym_obj("sec:rsa");
            let mut s = $m::RsaSha1::new(k).sign_with(sym_str("sec:cs"), None);
            check_eq("C16", s.get_signature_method_name(), "RSA-SHA1", "name");
            feed_const(&mut s);
            check_eq("C16", &disp(s.end()), rsa(sym_str("sec:rsa"), BASE), "the algorithm of RSA-SHA1");
        }
        pub fn $e2() {
            let k: $m::RsaPrivateKey = sym_obj("sec:rsa");
            let m = $m::RsaSha1::from(k);
            let mut s = (&m).sign_with(sym_str("sec:cs"), None);
            check_eq("C16", s.get_signature_method_name(), "RSA-SHA1", "name of the by-reference method");
            feed_const(&mut s);
            check_eq("C16", &disp(s.end()), rsa(sym_str("sec:rsa"), BASE), "the algorithm of &RSA-SHA1");
        }
        pub fn $e3() {
            let k: $m::RsaPrivateKey = sym_obj("sec:rsa");
            let m: &$m::RsaSha1 = k.as_ref();
            let mut s = m.sign_with(sym_str("sec:cs"), None);
            feed_const(&mut s);
            check_eq("C16", &disp(s.end()), rsa(sym_str("sec:rsa"), BASE), "the algorithm of a borrowed key");
        }
    )* };
}

rsa16! {
    e_c16_rsa09 e_c16_rsa09_ref e_c16_rsa09_as_ref rsa09;
    e_c16_rsa06 e_c16_rsa06_ref e_c16_rsa06_as_ref rsa06;
}
