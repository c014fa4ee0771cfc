//! Constants at the boundaries, and long inputs: what a condition on the contents of a string, a
//! counter or a buffer of fixed size would show in.
use crate::auth::*;
use crate::fail::question_panics;
use crate::p::*;
use crate::sigs::{hmac, key};
use crate::sp::*;
use core::num::NonZeroU64;
use oauth1_request as oauth;
use oauth1_request::serializer::auth::{Authorizer, Options};
use oauth1_request::serializer::recorder::{Record, Recorder};
use oauth1_request::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth1_request::signature_method::{Sign, SignatureMethod, HMAC_SHA1, PLAINTEXT};
use oauth1_request::{Credentials, ParameterList, Request};
use std::string::String;
use std::vec::Vec;

/// What a caller may pass; every field a constant.
struct Lit {
    method: S,
    uri: S,
    buf: S,
    client: (S, S),
    token: Option<(S, S)>,
    callback: Option<S>,
    verifier: Option<S>,
    nonce: S,
    timestamp: u64,
    version: bool,
    before: &'static [(S, S)],
    after: &'static [(S, S)],
    /// how often `before` and `after` are repeated
    times: usize,
}

const PLAIN: Lit = Lit {
    method: "GET",
    uri: "http://example.com/",
    buf: "",
    client: ("ck", "cs"),
    token: None,
    callback: None,
    verifier: None,
    nonce: "n",
    timestamp: 1,
    version: false,
    before: &[],
    after: &[],
    times: 1,
};

fn feed<T: Serializer>(mut s: T, spec: &mut Spec, l: &Lit) -> T::Output {
    let mut n = 0;
    while n < l.before.len() {
        let (k, v) = l.before[n];
        let mut i = 0;
        while i < l.times {
            s.serialize_parameter(k, v);
            spec.param(k, enc(v));
            s.serialize_parameter_encoded(k, v);
            spec.param(k, v);
            i += 1;
        }
        n += 1;
    }
    s.serialize_oauth_parameters();
    if let Some(c) = l.callback {
        spec.oauth("oauth_callback", c);
    }
    spec.oauth("oauth_consumer_key", l.client.0);
    spec.oauth("oauth_nonce", l.nonce);
    spec.oauth("oauth_signature_method", "PM");
    spec.oauth("oauth_timestamp", dec(l.timestamp));
    if let Some(t) = l.token {
        spec.oauth("oauth_token", t.0);
    }
    if let Some(v) = l.verifier {
        spec.oauth("oauth_verifier", v);
    }
    if l.version {
        spec.oauth("oauth_version", "1.0");
    }
    let mut n = 0;
    while n < l.after.len() {
        let (k, v) = l.after[n];
        let mut i = 0;
        while i < l.times {
            s.serialize_parameter(k, v);
            spec.param(k, enc(v));
            i += 1;
        }
        n += 1;
    }
    spec.end();
    s.end()
}

fn go(mode: Mode, l: &Lit) {
    let mut o = Options::new();
    o.callback(l.callback).verifier(l.verifier).nonce(l.nonce).timestamp(NonZeroU64::new(l.timestamp)).version(l.version);
    let c = Credentials::new(l.client.0, l.client.1);
    let t = match l.token {
        Some(t) => Some(Credentials::new(t.0, t.1)),
        None => None,
    };
    let ts = match l.token {
        Some(t) => Some(t.1),
        None => None,
    };
    let buf = String::from(l.buf);
    let start = match mode {
        Mode::Query => l.uri,
        _ => l.buf,
    };
    let mut spec = Spec::begin(mode, start, l.method, l.uri, l.client.1, ts);
    let out = match mode {
        Mode::Header => feed(Authorizer::authorization_with_buf(buf, l.method, l.uri, c, t, &o, PM::ALL), &mut spec, l),
        Mode::Form => feed(Authorizer::form_with_buf(buf, l.method, l.uri, c, t, &o, PM::ALL), &mut spec, l),
        Mode::Query => feed(Authorizer::query(l.method, String::from(l.uri), c, t, &o, PM::ALL), &mut spec, l),
    };
    match mode {
        Mode::Header => check_eq("C06", &out, log_get("wout"), "what is written"),
        _ => {
            check_eq("C05", &out, log_get("wout"), "what is written");
            check_eq("C07", &out, log_get("wout"), "what is written");
        }
    }
    check_eq("C20", &out, log_get("wout"), "what is written");
    check_eq("C01", &out, log_get("wout"), "what is written");
    check_eq("C08", &out, log_get("wout"), "what is written");
    check_eq("C09", log_get("sign"), log_get("wsign"), "calls of the signature method");
    check_eq("C04", log_get("base"), log_get("wbase"), "what is signed");
    check_eq("C02", log_get("base"), log_get("wbase"), "what is signed");
}

fn all(l: &Lit) {
    go(Mode::Header, l);
    go(Mode::Form, l);
    go(Mode::Query, l);
}

/// Strings a program may treat specially.
const TEXTS: [S; 44] = [
    "", "0", "1", "a", "A", " ", "+", "%", "%20", "%2520", "&", "=", "?", "\"", ",", "~", "-._~", "oob", "none", "None", "1.0", "abcdefgh", "\u{0}", "\u{e9}", "\u{20ac}a\u{1f600}", "a b&c=d%e+f\u{7f}",
    "%41", "%2", "%%", "%zz", "a%4Eb", "%c3%a9", "%25", "25", "\n", "\t", "\r\n", "'", "*", "\u{80}", "\u{fffd}", "\u{10ffff}", "http://cb.example/?a=b#c", "a+b",
];

pub fn e_auth_lit_values() {
    let mut i = 0;
    while i < TEXTS.len() {
        let v = TEXTS[i];
        let o = Options::new();
        let _ = o;
        let mut o = Options::new();
        o.nonce("n").timestamp(NonZeroU64::new(1));
        let mut m = 0;
        while m < 3 {
            let mode = [Mode::Header, Mode::Form, Mode::Query][m];
            let mut spec = Spec::begin(mode, if m == 2 { "http://h/" } else { "" }, "GET", "http://h/", "cs", None);
            let c = Credentials::new("ck", "cs");
            let out = match m {
                0 => lit_value(Authorizer::authorization("GET", "http://h/", c, None, &o, PM::ALL), &mut spec, v),
                1 => lit_value(Authorizer::form("GET", "http://h/", c, None, &o, PM::ALL), &mut spec, v),
                _ => lit_value(Authorizer::query("GET", String::from("http://h/"), c, None, &o, PM::ALL), &mut spec, v),
            };
            check_eq("C01", &out, log_get("wout"), "constant values");
            check_eq(if m == 0 { "C06" } else { "C05" }, &out, log_get("wout"), "constant values");
            check_eq("C02", log_get("base"), log_get("wbase"), "constant values");
            check_eq("C04", log_get("base"), log_get("wbase"), "constant values");
            m += 1;
        }
        i += 1;
    }
}
fn lit_value<T: Serializer>(mut s: T, spec: &mut Spec, v: S) -> T::Output {
    s.serialize_parameter("a", v);
    spec.param("a", enc(v));
    s.serialize_parameter("b", PV(v, v));
    spec.param("b", cat(&[enc(v), enc(v)]));
    s.serialize_parameter_encoded("c", v);
    spec.param("c", v);
    s.serialize_parameter_encoded("d", PV(v, v));
    spec.param("d", cat(&[v, v]));
    spec.end();
    s.end()
}

pub fn e_auth_lit_keys() {
    all(&Lit {
        before: &[("", "v"), ("A", "v"), ("OAUTH_NONCE", "v"), ("_", "v"), ("a", "v"), ("b-._~", "v"), ("oauth", "v"), ("oauth_", "v"), ("oauth_body_hash", "v"), ("oauth_c", "v"), ("oauth_callback", "v")],
        after: &[("oauth_version", "v"), ("oauth_versions", "v"), ("realm", "v"), ("size", "v"), ("z", ""), ("z", "v"), ("~", "v")],
        ..PLAIN
    });
}
pub fn e_auth_lit_many() {
    all(&Lit { before: &[("a", "x"), ("b", "y")], after: &[("x", "v"), ("z", "w")], times: 140, version: true, ..PLAIN });
}
pub fn e_auth_lit_options() {
    let mut i = 0;
    while i < TEXTS.len() {
        let v = TEXTS[i];
        go(Mode::Header, &Lit { callback: Some(v), verifier: Some(v), nonce: v, token: Some((v, v)), client: (v, v), ..PLAIN });
        go(Mode::Form, &Lit { callback: Some(v), verifier: Some(v), nonce: v, token: Some((v, v)), client: (v, v), version: true, ..PLAIN });
        i += 1;
    }
}
pub fn e_auth_lit_each_option() {
    let mut i = 0;
    while i < TEXTS.len() {
        let v = TEXTS[i];
        go(Mode::Header, &Lit { callback: Some(v), ..PLAIN });
        go(Mode::Header, &Lit { verifier: Some(v), ..PLAIN });
        go(Mode::Header, &Lit { token: Some((v, "ts")), ..PLAIN });
        go(Mode::Header, &Lit { token: Some(("tk", v)), ..PLAIN });
        go(Mode::Header, &Lit { client: (v, "cs"), ..PLAIN });
        i += 1;
    }
}
pub fn e_auth_lit_methods() {
    let m = ["GET", "get", "Post", "", "HEAD", "x-Custom", "A&B", "M-SEARCH", "\u{e9}", "POST "];
    let mut i = 0;
    while i < m.len() {
        all(&Lit { method: m[i], before: &[("a", "v")], ..PLAIN });
        i += 1;
    }
}
pub fn e_auth_lit_uris() {
    let m = [
        "", "/", "http://example.com", "http://EXAMPLE.com:80/", "HTTPS://example.com:443/r%20v/X", "http://example.com/#f", "http://example.com/a&b=c;d", "http://\u{e9}.com/%3F", "http://u:p@h/~x", "http://h/a//b/../c",
    ];
    let mut i = 0;
    while i < m.len() {
        all(&Lit { uri: m[i], before: &[("a", "v")], ..PLAIN });
        i += 1;
    }
}
pub fn e_auth_lit_bufs() {
    let m = ["", "a", "a=b", "a=b&", "?", "http://h/?x=y", "OAuth ", "Authorization: ", "\"", ",", " ", "\u{e9}\u{20ac}", "oauth_signature="];
    let mut i = 0;
    while i < m.len() {
        go(Mode::Header, &Lit { buf: m[i], ..PLAIN });
        go(Mode::Form, &Lit { buf: m[i], before: &[("a", "v")], ..PLAIN });
        go(Mode::Form, &Lit { buf: m[i], ..PLAIN });
        let mut u = Urlencoder::form_with_buf(String::from(m[i]));
        u.serialize_parameter("a", "v");
        u.serialize_parameter("b", "w");
        check_eq("C20", &u.end(), cat(&[m[i], "a=v&b=w"]), "appended to the buffer");
        let mut u = Urlencoder::query(String::from(m[i]));
        u.serialize_parameter("a", "v");
        u.serialize_parameter("b", "w");
        check_eq("C20", &u.end(), cat(&[m[i], "?a=v&b=w"]), "appended to the URI");
        check_eq("C20", &Urlencoder::query(String::from(m[i])).end(), m[i], "nothing appended to the URI");
        i += 1;
    }
}
pub fn e_auth_lit_timestamps() {
    let m = [1, 2, 9, 10, 255, 256, 65535, 65536, 999_999_999, 1_000_000_000, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 99_999_999_999, 1 << 53, i64::MAX as u64, 1 << 63, u64::MAX];
    let mut i = 0;
    while i < m.len() {
        go(Mode::Header, &Lit { timestamp: m[i], ..PLAIN });
        i += 1;
    }
}

/// The key of every length around the block size, in one piece and in several.
fn keyed(cs: S, ts: Option<S>) {
    let mut s = HMAC_SHA1.sign_with(cs, ts);
    s.request_method("M");
    s.uri("U");
    s.parameter("k", "v");
    check_eq("C14", &disp(s.end()), hmac(key(cs, ts), "M&U&k%3Dv"), "a key of known length");
}
/// Any n unreserved characters: the names in `run:` stand for these only.
fn run(name: S, n: usize) -> S {
    sym_str_n(name, n)
}
pub fn e_c14_lit_one_run() {
    let m = [0, 1, 19, 20, 21, 31, 32, 33, 55, 56, 61, 62, 63, 64, 65, 66, 95, 96, 119, 126, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 300, 511, 513, 1000, 4097];
    let n = m[nd_below(m.len())];
    keyed(run("run:a", n), if nd() { Some("") } else { None });
}
pub fn e_c14_lit_two_runs() {
    let m = [0, 1, 31, 32, 62, 63, 64, 129];
    let (a, b) = (m[nd_below(m.len())], m[nd_below(m.len())]);
    keyed(run("run:a", a), Some(run("run:b", b)));
}
pub fn e_c14_lit_pieces() {
    let m = [0, 1, 20, 57, 58, 59, 60, 61, 62, 63, 64, 65, 120, 128, 140];
    let (a, b) = (run("run:a", m[nd_below(m.len())]), run("run:b", 7));
    if nd() {
        keyed(cat(&[a, "%", b, "\u{e9}"]), None);
    } else {
        keyed(cat(&["&", a]), Some(cat(&["+", b, a])));
    }
}

pub fn e_c13_lit() {
    let m = ["", "a", "&", "%", "=", "a&b", "a%26b", "\u{e9}", " ", "+", "~-._", "\u{0}", "\"", "aA0"];
    let mut i = 0;
    while i < m.len() {
        let mut j = 0;
        while j <= m.len() {
            let t = if j == m.len() { None } else { Some(m[j]) };
            let mut s = HMAC_SHA1.sign_with(m[i], t);
            s.request_method("M");
            check_eq("C13", &disp(s.end()), hmac(key(m[i], t), "M&"), "the key of HMAC-SHA1");
            check_eq("C13", &disp(PLAINTEXT.sign_with(m[i], t).end()), enc(key(m[i], t)), "the key of PLAINTEXT");
            check_eq("C15", &disp(PLAINTEXT.sign_with(m[i], t).end()), enc(key(m[i], t)), "the key of PLAINTEXT");
            j += 1;
        }
        i += 1;
    }
}

pub fn e_c03_lit_hmac() {
    let m = ["GET", "get", "x-Custom", "", "A&B", "\u{e9}"];
    let mut i = 0;
    while i < m.len() {
        let mut s = HMAC_SHA1.sign_with("c", None);
        s.request_method(m[i]);
        s.uri(PV(m[i], "U"));
        s.parameter("", m[i]);
        s.delimiter();
        s.parameter(m[i], "");
        check_eq("C03", &disp(s.end()), hmac("c&", cat(&[m[i], "&", m[i], "U&%3D", m[i], "%26", m[i], "%3D"])), "what HMAC-SHA1 hashes");
        i += 1;
    }
}
/// Many parameters.
pub fn e_c03_lit_many() {
    let mut s = HMAC_SHA1.sign_with("c", None);
    s.request_method("M");
    s.uri("U");
    log_set("b", "M&U&");
    let mut i = 0;
    while i < 300 {
        if i > 0 {
            s.delimiter();
            log_add("b", "%26");
        }
        s.parameter("k", "v");
        log_add("b", "k%3Dv");
        i += 1;
    }
    check_eq("C03", &disp(s.end()), hmac("c&", log_get("b")), "what HMAC-SHA1 hashes");
}

pub fn e_c38_lit_uri() {
    let m = ["?", "??", "a?", "?a", "http://h/?", "http://h?a=b", "http://h/#?", "http://h/#/a?b", "http://\u{e9}/?", "%3F?", "\u{1f600}?", "/a;?", "http://h/a&b?c", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef?"];
    question_panics(m[nd_below(m.len())]);
}
/// Any number below n (at most 64).
pub fn nd_below(n: usize) -> usize {
    fn bit(v: usize) -> usize {
        if nd() { v } else { 0 }
    }
    let mut i = bit(1);
    if n > 2 { i += bit(2); }
    if n > 4 { i += bit(4); }
    if n > 8 { i += bit(8); }
    if n > 16 { i += bit(16); }
    if n > 32 { i += bit(32); }
    if i < n { i } else { 0 }
}
pub fn e_c38_lit_uri_ok() {
    let m = ["", "/", "#", "http://h/#a", "%3F", "\u{ff1f}", "\u{37e}", "\u{e9}", ">", "@", "\u{203d}", "\u{bf}"];
    panic_prop("C38");
    let mut i = 0;
    while i < m.len() {
        go(Mode::Header, &Lit { uri: m[i], ..PLAIN });
        go(Mode::Form, &Lit { uri: m[i], ..PLAIN });
        go(Mode::Query, &Lit { uri: m[i], ..PLAIN });
        check("C38", true, "a URI without a question mark does not panic");
        i += 1;
    }
}

fn texts_eq(a: S, b: S) -> bool {
    a == b
}
pub fn e_c34_lit_eq() {
    let m = ["", "a", "A", "ab", "b", "a b", "a%20b", "\u{e9}", "a\u{0}"];
    let mut i = 0;
    while i < m.len() {
        let mut j = 0;
        while j < m.len() {
            let want = texts_eq(m[i], m[j]);
            let a: Record<S, S> = Record::Parameter(m[i], "v");
            let b: Record<S, PV> = Record::Parameter(m[j], PV("", "v"));
            check("C34", (a == b) == want, "records with constant keys");
            let a: Record<S, S> = Record::ParameterEncoded(m[i], "v");
            let b: Record<S, PV> = Record::ParameterEncoded(m[j], PV("v", ""));
            check("C34", (a == b) == want, "encoded records with constant keys");
            let a: Record<S, S> = Record::Parameter("k", m[i]);
            let b: Record<S, PV> = Record::Parameter("k", PV(m[j], ""));
            check("C34", (a == b) == want, "records with constant values");
            let b: Record<S, PV> = Record::Parameter("k", PV("", m[j]));
            check("C34", (b == a) == want, "records with constant values");
            let a: Record<S, S> = Record::ParameterEncoded("k", m[i]);
            let b: Record<S, S> = Record::ParameterEncoded("k", m[j]);
            check("C34", (a == b) == want, "encoded records with constant values");
            let b: Record<S, S> = Record::Parameter("k", m[j]);
            check("C34", a != b, "records of different kinds");
            j += 1;
        }
        i += 1;
    }
}
pub fn e_c34_lit_many() {
    let mut r = Recorder::new();
    let mut i = 0;
    while i < 300 {
        r.serialize_parameter("k", "v");
        r.serialize_oauth_nonce();
        r.serialize_parameter_encoded("", "");
        i += 1;
    }
    check("C34", r.history().len() == 900, "a long recording");
    let o = r.end();
    check("C34", o.len() == 900, "a long recording");
    let mut i = 0;
    while i < 900 {
        check("C34", o[i] == Record::Parameter("k", "v"), "a long recording");
        check("C34", o[i + 1] == <Record>::Nonce, "a long recording");
        check("C34", o[i + 2] == Record::ParameterEncoded("", ""), "a long recording");
        i += 3;
    }
}

/// Pairs in the order of keys and then encoded values.
const ORDERED: [(S, S); 22] = [
    ("", ""), ("", "a"), ("A", ""), ("A", "z"), ("a", ""), ("a", "\u{e9}"), ("a", "+"), ("a", "="), ("a", "-"), ("a", "."), ("a", "0"), ("a", "10"), ("a", "9"), ("a", "A"), ("a", "_"), ("a", "a"), ("a", "aa"), ("a", "~"), ("a-", ""), ("aa", ""), ("b", ""), ("~", ""),
];
pub fn e_c12_lit() {
    // "\u{e9}" is "%C3%A9", "+" is "%2B" and "=" is "%3D": the percent sign is what is compared.
    let mut w: Vec<(S, S)> = Vec::new();
    let mut i = 0;
    let order: [usize; 22] = [0, 1, 2, 3, 4, 6, 7, 5, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21];
    while i < 22 {
        w.push(ORDERED[order[i]]);
        i += 1;
    }
    let mut i = 0;
    while i < 22 {
        let mut j = 0;
        while j < 22 {
            let l: Option<ParameterList<S, S, [(S, S); 2]>> = ParameterList::from_sorted([w[i], w[j]]);
            check("C12", l.is_some() == (i <= j), "constant pairs");
            let l: Option<ParameterList<S, PV, [(S, PV); 2]>> = ParameterList::from_sorted([(w[i].0, PV("", w[i].1)), (w[j].0, PV(w[j].1, ""))]);
            check("C12", l.is_some() == (i <= j), "constant pairs in pieces");
            j += 1;
        }
        i += 1;
    }
}

/// Keys around the names of the OAuth parameters.
pub fn e_c10_lit() {
    const K: [S; 20] = [
        "", "A", "a", "oauth", "oauth_", "oauth_a", "oauth_callbac", "oauth_callback", "oauth_callback0", "oauth_consumer_key", "oauth_nonce", "oauth_nonce_", "oauth_signature", "oauth_signature_method", "oauth_timestamp", "oauth_tokem", "oauth_token", "oauth_verifier", "oauth_version", "z",
    ];
    const O: [S; 8] = ["oauth_callback", "oauth_consumer_key", "oauth_nonce", "oauth_signature_method", "oauth_timestamp", "oauth_token", "oauth_verifier", "oauth_version"];
    let mut list: Vec<(S, S)> = Vec::new();
    log_set("w", "");
    let (mut i, mut o) = (0, 0);
    while i < K.len() {
        while o < 8 && O[o] < K[i] {
            log_add("w", cat(&[oauth_record(o), " "]));
            o += 1;
        }
        log_add("w", cat(&[K[i], "=v "]));
        list.push((K[i], "v"));
        i += 1;
    }
    while o < 8 {
        log_add("w", cat(&[oauth_record(o), " "]));
        o += 1;
    }
    show_all("a", &oauth::request::AssertSorted::new(list.clone()).serialize(Recorder::new()));
    check_eq("C10", log_get("a"), log_get("w"), "constant keys");
    match ParameterList::from_sorted(list) {
        Some(l) => {
            show_all("a", &l.serialize(Recorder::new()));
            check_eq("C10", log_get("a"), log_get("w"), "a list with constant keys");
        }
        None => check("C11", false, "a list in order"),
    }
}
fn oauth_record(i: usize) -> S {
    ["callback", "consumer_key", "nonce", "signature_method", "timestamp", "token", "verifier", "version"][i]
}
fn show_all(log: S, r: &[Record]) {
    log_set(log, "");
    let mut i = 0;
    while i < r.len() {
        match &r[i] {
            Record::Parameter(k, v) => log_add(log, cat(&[k, "=", v, " "])),
            Record::ParameterEncoded(k, v) => log_add(log, cat(&[k, "=enc=", v, " "])),
            x => log_add(log, cat(&[crate::rec::show(x), " "])),
        }
        i += 1;
    }
}
pub fn e_c10_lit_many() {
    let mut list: Vec<(S, S)> = Vec::new();
    log_set("w", "");
    let mut i = 0;
    while i < 300 {
        list.push(("k", "v"));
        log_add("w", "k=v ");
        i += 1;
    }
    let mut o = 0;
    while o < 8 {
        log_add("w", cat(&[oauth_record(o), " "]));
        o += 1;
    }
    let mut i = 0;
    while i < 300 {
        list.push(("p", "v"));
        log_add("w", "p=v ");
        i += 1;
    }
    show_all("a", &oauth::request::AssertSorted::new(list).serialize(Recorder::new()));
    check_eq("C10", log_get("a"), log_get("w"), "many keys");
}
pub fn e_c35_lit() {
    let mut i = 0;
    while i < TEXTS.len() {
        let v = TEXTS[i];
        let l = [("", v), ("a", v), ("oauth_nonce", v), ("oauth_token", v), ("realm", v)];
        let w = cat(&["=", enc(v), "&a=", enc(v), "&oauth_nonce=", enc(v), "&oauth_token=", enc(v), "&realm=", enc(v)]);
        let r = oauth::request::AssertSorted::new(l);
        check_eq("C35", &oauth::to_form(&r), w, "constants in a form");
        check_eq("C07", &oauth::to_form(&r), w, "constants in a form");
        check_eq("C35", &oauth::to_query(String::from("http://h/"), &r), cat(&["http://h/?", w]), "constants in a query");
        check_eq("C07", &oauth::to_query(String::from("http://h/"), &r), cat(&["http://h/?", w]), "constants in a query");
        i += 1;
    }
}

/// Nothing but the key depends on the secrets.
fn observed(mode: usize, cs: S, ts: Option<S>) -> S {
    let mut o = Options::new();
    o.nonce("n").timestamp(NonZeroU64::new(1)).callback("c").verifier("v").version(true);
    let c = Credentials::new("ck", cs);
    let t = match ts {
        Some(s) => Some(Credentials::new("tk", s)),
        None => None,
    };
    log_set("sign", "");
    let out = match mode {
        0 => {
            let mut a = Authorizer::authorization("GET", "u", c, t, &o, PM::ALL);
            a.serialize_parameter("a", "v");
            log_set("sign", "");
            let mut a = a;
            a.serialize_oauth_parameters();
            a.end()
        }
        1 => {
            let mut a = Authorizer::form("GET", "u", c, t, &o, PM::ALL);
            a.serialize_parameter("a", "v");
            log_set("sign", "");
            a.serialize_oauth_parameters();
            a.end()
        }
        2 => {
            let mut a = Authorizer::query("GET", String::from("u"), c, t, &o, PM::ALL);
            a.serialize_parameter("a", "v");
            log_set("sign", "");
            a.serialize_oauth_parameters();
            a.end()
        }
        3 => {
            let t = match ts {
                Some(s) => Some(Credentials::new("", s)),
                None => None,
            };
            let mut a = Authorizer::authorization("GET", "u", Credentials::new("", cs), t, &o, PM::ALL);
            log_set("sign", "");
            a.serialize_oauth_parameters();
            a.end()
        }
        _ => {
            let t = match ts {
                Some(s) => Some(Credentials::new("ck", s)),
                None => None,
            };
            let mut b = oauth::Builder::<_, S, S>::new(c, PM::ALL);
            b.token(t).nonce("n").timestamp(NonZeroU64::new(1));
            let out = b.authorize("GET", "u", &());
            log_set("sign", "");
            out
        }
    };
    cat(&[&out, " / ", log_get("sign")])
}
fn same(mode: usize) {
    let a = observed(mode, "cs", Some("ts"));
    let m = ["", "ck", "tk", "a", "&", "\u{e9}", "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef", sym_str("sec:x")];
    let mut i = 0;
    while i < m.len() {
        check_eq("C26", observed(mode, m[i], Some("ts")), a, "nothing depends on the client secret");
        check_eq("C26", observed(mode, "cs", Some(m[i])), a, "nothing depends on the token secret");
        check_eq("C26", observed(mode, m[i], Some(m[i])), a, "nothing depends on the secrets");
        i += 1;
    }
    let a = observed(mode, "cs", None);
    let mut i = 0;
    while i < m.len() {
        check_eq("C26", observed(mode, m[i], None), a, "nothing depends on the client secret");
        i += 1;
    }
}
pub fn e_c26_header() {
    same(0);
}
pub fn e_c26_form() {
    same(1);
}
pub fn e_c26_query() {
    same(2);
}
pub fn e_c26_no_names() {
    same(3);
}
pub fn e_c26_builder() {
    same(4);
}
