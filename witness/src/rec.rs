//! The recorder.
use crate::p::*;
use crate::sp::*;
use oauth1_request::serializer::recorder::{Record, Recorder};
use oauth1_request::serializer::{Serializer, SerializerExt};
use std::string::String;

/// The kind and what it carries, told by pattern alone.
pub fn show<K: AsRef<str>, V: core::fmt::Display>(r: &Record<K, V>) -> S {
    match r {
        Record::Parameter(k, v) => cat(&["p(", k.as_ref(), "=", &disp(v), ")"]),
        Record::ParameterEncoded(k, v) => cat(&["e(", k.as_ref(), "=", &disp(v), ")"]),
        Record::Callback => "callback",
        Record::ConsumerKey => "consumer_key",
        Record::Nonce => "nonce",
        Record::SignatureMethod => "signature_method",
        Record::Timestamp => "timestamp",
        Record::Token => "token",
        Record::Verifier => "verifier",
        Record::Version => "version",
    }
}

/// Any one operation, and what must be recorded of it.
fn any_op(r: &mut Recorder, i: S) -> S {
    let k = cat(&["k", i]);
    let k = sym_str(k);
    let v = PV(sym_str(cat(&["v", i])), sym_str(cat(&["w", i])));
    if nd() {
        r.serialize_parameter(k, v);
        cat(&["p(", k, "=", v.s(), ")"])
    } else if nd() {
        r.serialize_parameter_encoded(k, v);
        cat(&["e(", k, "=", v.s(), ")"])
    } else if nd() {
        r.serialize_oauth_callback();
        "callback"
    } else if nd() {
        r.serialize_oauth_consumer_key();
        "consumer_key"
    } else if nd() {
        r.serialize_oauth_nonce();
        "nonce"
    } else if nd() {
        r.serialize_oauth_signature_method();
        "signature_method"
    } else if nd() {
        r.serialize_oauth_timestamp();
        "timestamp"
    } else if nd() {
        r.serialize_oauth_token();
        "token"
    } else if nd() {
        r.serialize_oauth_verifier();
        "verifier"
    } else {
        r.serialize_oauth_version();
        "version"
    }
}

pub fn e_c34_ops() {
    let mut r = Recorder::new();
    check("C34", r.history().len() == 0, "nothing is recorded before the first operation");
    let a = any_op(&mut r, "1");
    check("C34", r.history().len() == 1, "one record for each operation");
    check_eq("C34", show(&r.history()[0]), a, "record");
    let b = any_op(&mut r, "2");
    check("C34", r.history().len() == 2, "one record for each operation");
    let c = if nd() {
        let c = any_op(&mut r, "3");
        check("C34", r.history().len() == 3, "one record for each operation");
        Some(c)
    } else {
        None
    };
    check_eq("C34", show(&r.history()[0]), a, "record");
    check_eq("C34", show(&r.history()[1]), b, "record");
    let n = r.history().len();
    let out = r.end();
    check("C34", out.len() == n, "the whole history is returned");
    check_eq("C34", show(&out[0]), a, "record");
    check_eq("C34", show(&out[1]), b, "record");
    if let Some(c) = c {
        check_eq("C34", show(&out[2]), c, "record");
    }
}
pub fn e_c34_empty() {
    let r = Recorder::default();
    check("C34", r.history().len() == 0, "nothing is recorded before the first operation");
    check("C34", r.end().len() == 0, "nothing is recorded without an operation");
}
pub fn e_c34_all() {
    let mut r = Recorder::new();
    r.serialize_oauth_parameters();
    let o = r.end();
    check("C34", o.len() == 8, "all OAuth parameters");
    let c = <Record>::OAUTH_PARAMETERS;
    let want = "callback consumer_key nonce signature_method timestamp token verifier version ";
    let mut i = 0;
    log_set("a", "");
    log_set("b", "");
    while i < 8 {
        log_add("a", cat(&[show(&o[i]), " "]));
        log_add("b", cat(&[show(&c[i]), " "]));
        check("C34", o[i] == c[i], "the constant");
        i += 1;
    }
    check_eq("C34", log_get("a"), want, "all OAuth parameters");
    check_eq("C34", log_get("b"), want, "the constant");
}

fn kind(i: usize, k: S, v: PV) -> Record<S, PV> {
    match i {
        0 => Record::Parameter(k, v),
        1 => Record::ParameterEncoded(k, v),
        2 => Record::Callback,
        3 => Record::ConsumerKey,
        4 => Record::Nonce,
        5 => Record::SignatureMethod,
        6 => Record::Timestamp,
        7 => Record::Token,
        8 => Record::Verifier,
        _ => Record::Version,
    }
}
fn kind2(i: usize, k: String, v: S) -> Record<String, S> {
    match i {
        0 => Record::Parameter(k, v),
        1 => Record::ParameterEncoded(k, v),
        2 => Record::Callback,
        3 => Record::ConsumerKey,
        4 => Record::Nonce,
        5 => Record::SignatureMethod,
        6 => Record::Timestamp,
        7 => Record::Token,
        8 => Record::Verifier,
        _ => Record::Version,
    }
}

pub fn e_c34_eq() {
    let v = PV(sym_str("v1"), sym_str("w1"));
    let mut i = 0;
    while i < 10 {
        let a = kind(i, sym_str("k1"), v);
        let mut j = 0;
        while j < 10 {
            let b = kind2(j, String::from(sym_str("k2")), sym_str("v2"));
            let got = a == b;
            let ne = a != b;
            let want = i == j && (i > 1 || sym_str("k1") == sym_str("k2") && v.s() == sym_str("v2"));
            check("C34", got == want, "equality");
            check("C34", ne != want, "inequality");
            j += 1;
        }
        i += 1;
    }
}
pub fn e_c34_eq_number() {
    let a: Record<S, u64> = Record::Parameter("k", sym_u64("n"));
    let b: Record = Record::Parameter(String::from("k"), String::from(dec(sym_u64("n"))));
    check("C34", a == b, "values are compared as they are displayed");
    check("C34", b == a, "values are compared as they are displayed");
    check("C34", a == a.clone(), "clone");
    check_eq("C34", show(&b.clone()), show(&a), "clone");
}
