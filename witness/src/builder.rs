//! Builder, free functions, options, Either: everything that leads to an authorizer.
use crate::auth::args;
use crate::p::*;
use crate::sp::*;
use core::fmt::{self, Display, Write};
use core::num::NonZeroU64;
use oauth1_request as oauth;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::{Sign, SignatureMethod};
use oauth::{Builder, Credentials, ParameterList, Request, Token};
use either::Either;
use std::string::String;

/// A request with three parameters of its own, raw and encoded, before and after OAuth's.
pub struct RQ;

impl Request for RQ {
    fn serialize<T: Serializer>(&self, mut s: T) -> T::Output {
        s.serialize_parameter("a", PV(sym_str("va1"), sym_str("va2")));
        s.serialize_parameter_encoded("b", PV(sym_str("vb1"), sym_str("vb2")));
        s.serialize_oauth_parameters();
        s.serialize_parameter("z", PV(sym_str("vz1"), sym_str("vz2")));
        s.end()
    }
}

/// A writer that is not a string.
#[derive(Clone)]
pub struct W(pub String);

impl Write for W {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}
impl Display for W {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

/// A URI that is not a string.
#[derive(Clone, Copy)]
pub struct U(pub S);
impl Display for U {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)
    }
}

/// The state of the options as the specification sees it.
#[derive(Clone, Copy)]
pub struct St {
    pub callback: Option<S>,
    pub verifier: Option<S>,
    pub nonce: Option<S>,
    pub timestamp: Option<NonZeroU64>,
    pub version: bool,
}

fn maybe(n: S) -> Option<S> {
    if nd() { Some(sym_str(n)) } else { None }
}

fn ts(n: S) -> NonZeroU64 {
    let t = sym_u64(n);
    assume_pos(t);
    NonZeroU64::new(t).unwrap()
}

impl St {
    pub const NEW: St = St { callback: None, verifier: None, nonce: None, timestamp: None, version: false };
    fn full() -> St {
        St { callback: Some(sym_str("callback")), verifier: Some(sym_str("verifier")), nonce: Some(sym_str("nonce")), timestamp: Some(ts("timestamp")), version: true }
    }
    /// Nonce and timestamp given.
    fn any_given() -> St {
        St { callback: maybe("callback"), verifier: maybe("verifier"), version: nd(), ..St::full() }
    }
    fn options(&self) -> Options<'static> {
        let mut o = Options::new();
        if let Some(x) = self.callback {
            o.callback(x);
        }
        if let Some(x) = self.verifier {
            o.verifier(x);
        }
        if let Some(x) = self.nonce {
            o.nonce(x);
        }
        if let Some(x) = self.timestamp {
            o.timestamp(x);
        }
        if self.version {
            o.version(true);
        }
        o
    }
    fn builder(&self, token: bool, pm: PM) -> Builder<'static, PM, S, S> {
        let c = Credentials::new(sym_str("ck"), sym_str("sec:cs"));
        let t = Credentials::new(sym_str("tk"), sym_str("sec:ts"));
        let mut b = if token { Builder::with_token(Token { client: c, token: t }, pm) } else { Builder::new(c, pm) };
        if let Some(x) = self.callback {
            b.callback(x);
        }
        if let Some(x) = self.verifier {
            b.verifier(x);
        }
        if let Some(x) = self.nonce {
            b.nonce(x);
        }
        if let Some(x) = self.timestamp {
            b.timestamp(x);
        }
        if self.version {
            b.version(true);
        }
        b
    }
    /// What the header must contain.
    fn header(&self, pm: &PM, token: Option<S>) -> S {
        let mut h = "OAuth ";
        if let Some(x) = self.callback {
            h = cat(&[h, "oauth_callback=\"", enc(x), "\","]);
        }
        h = cat(&[h, "oauth_consumer_key=\"", enc(sym_str("ck")), "\","]);
        if pm.use_nonce {
            if let Some(x) = self.nonce {
                h = cat(&[h, "oauth_nonce=\"", enc(x), "\","]);
            }
        }
        h = cat(&[h, "oauth_signature_method=\"PM\","]);
        if pm.use_timestamp {
            if let Some(x) = self.timestamp {
                h = cat(&[h, "oauth_timestamp=\"", dec(x.get()), "\","]);
            }
        }
        if let Some(x) = token {
            h = cat(&[h, "oauth_token=\"", enc(x), "\","]);
        }
        if let Some(x) = self.verifier {
            h = cat(&[h, "oauth_verifier=\"", enc(x), "\","]);
        }
        if self.version {
            h = cat(&[h, "oauth_version=\"1.0\","]);
        }
        cat(&[h, "oauth_signature=\"", sig(), "\""])
    }
}

#[derive(Clone, Copy, PartialEq)]
enum M {
    Header,
    Form,
    Query,
}

/// The reference: an authorizer fed directly.
fn reference(m: M, st: &St, pm: PM, token: bool, method: S, uri: S, buf: S) -> (String, S) {
    let a = args(token);
    let o = st.options();
    log_set("sign", "");
    let out = match m {
        M::Header => RQ.serialize(Authorizer::authorization_with_buf(String::from(buf), method, uri, a.client, a.token, &o, pm)),
        M::Form => RQ.serialize(Authorizer::form_with_buf(String::from(buf), method, uri, a.client, a.token, &o, pm)),
        M::Query => RQ.serialize(Authorizer::query(method, String::from(uri), a.client, a.token, &o, pm)),
    };
    let s = log_get("sign");
    log_set("sign", "");
    (out, s)
}

const NONE: PM = PM { use_nonce: false, use_timestamp: false };

fn token2() -> Token<S, S> {
    Token { client: Credentials::new(sym_str("ck"), sym_str("sec:cs")), token: Credentials::new(sym_str("tk"), sym_str("sec:ts")) }
}

macro_rules! agree {
    ($prop:literal $($name:ident $m:ident $token:literal $st:expr, $pm:expr, $method:expr; |$s:ident, $p:ident, $m2:ident, $uri:ident, $buf:ident| ($own:literal) $e:expr;)*) => {$(
        pub fn $name() {
            let $s = $st;
            let $p = $pm;
            let $m2 = $method;
            let $uri = sym_str("uri");
            assume_no($uri, "?");
            let $buf = if $own { sym_str("buf") } else { "" };
            let (want, wsign) = reference(M::$m, &$s, $p.clone(), $token, $m2, $uri, $buf);
            let out = disp($e);
            check_eq($prop, &out, &want, "output");
            check_eq($prop, log_get("sign"), wsign, "what the signature method is given");
        }
    )*};
}

macro_rules! agree_both {
    ($($name:ident $name_t:ident $m:ident |$b:ident, $m2:ident, $uri:ident, $buf:ident| ($own:literal) $e:expr;)*) => {
        agree! { "C19" $(
            $name $m false St::any_given(), PM::ALL, sym_str("method"); |s, p, $m2, $uri, $buf| ($own) { let $b = s.builder(false, p); $e };
            $name_t $m true St::any_given(), PM::ALL, sym_str("method"); |s, p, $m2, $uri, $buf| ($own) { let $b = s.builder(true, p); $e };
        )* }
    };
}

agree_both! {
    e_c19_authorize e_c19_authorize_t Header |b, m, u, buf| (false) b.authorize(m, U(u), &RQ);
    e_c19_to_form e_c19_to_form_t Form |b, m, u, buf| (false) b.to_form(m, U(u), &RQ);
    e_c19_to_query e_c19_to_query_t Query |b, m, u, buf| (false) b.to_query(m, String::from(u), &RQ);
    e_c19_to_query_w e_c19_to_query_w_t Query |b, m, u, buf| (false) b.to_query(m, W(String::from(u)), &RQ);
    e_c19_authorize_with_buf e_c19_authorize_with_buf_t Header |b, m, u, buf| (true) b.authorize_with_buf(W(String::from(buf)), m, U(u), &RQ);
    e_c19_to_form_with_buf e_c19_to_form_with_buf_t Form |b, m, u, buf| (true) b.to_form_with_buf(W(String::from(buf)), m, U(u), &RQ);
    e_c19_into_authorization e_c19_into_authorization_t Header |b, m, u, buf| (false) b.into_authorization(m, U(u), &RQ);
    e_c19_into_form e_c19_into_form_t Form |b, m, u, buf| (false) b.into_form(m, U(u), &RQ);
    e_c19_into_query e_c19_into_query_t Query |b, m, u, buf| (false) b.into_query(m, String::from(u), &RQ);
    e_c19_into_query_w e_c19_into_query_w_t Query |b, m, u, buf| (false) b.into_query(m, W(String::from(u)), &RQ);
    e_c19_into_authorization_with_buf e_c19_into_authorization_with_buf_t Header |b, m, u, buf| (true) b.into_authorization_with_buf(W(String::from(buf)), m, U(u), &RQ);
    e_c19_into_form_with_buf e_c19_into_form_with_buf_t Form |b, m, u, buf| (true) b.into_form_with_buf(W(String::from(buf)), m, U(u), &RQ);
}

agree! { "C19"
    e_c19_auth_authorization Header false St::any_given(), PM::ALL, sym_str("method"); |s, p, m, u, buf| (false) {
        let a = args(false);
        RQ.serialize(Authorizer::authorization(m, U(u), a.client, a.token, &s.options(), p))
    };
    e_c19_auth_authorization_t Header true St::any_given(), PM::ALL, sym_str("method"); |s, p, m, u, buf| (false) {
        let a = args(true);
        RQ.serialize(Authorizer::authorization(m, U(u), a.client, a.token, &s.options(), p))
    };
    e_c19_auth_form Form false St::any_given(), PM::ALL, sym_str("method"); |s, p, m, u, buf| (false) {
        let a = args(false);
        RQ.serialize(Authorizer::form(m, U(u), a.client, a.token, &s.options(), p))
    };
    e_c19_auth_form_t Form true St::any_given(), PM::ALL, sym_str("method"); |s, p, m, u, buf| (false) {
        let a = args(true);
        RQ.serialize(Authorizer::form(m, U(u), a.client, a.token, &s.options(), p))
    };
    e_c19_free Header true St::NEW, NONE, sym_str("method"); |s, p, m, u, buf| (false) oauth::authorize(m, U(u), &RQ, &token2(), p);
    e_c19_free_string Header true St::NEW, NONE, sym_str("method"); |s, p, m, u, buf| (false) {
        let t = Token { client: Credentials::new(String::from(sym_str("ck")), String::from(sym_str("sec:cs"))), token: Credentials::new(sym_str("tk"), sym_str("sec:ts")) };
        oauth::authorize(m, u, &RQ, &t, p)
    };
    e_c19_twice Header true St::full(), PM::ALL, sym_str("method"); |s, p, m, u, buf| (false) {
        // a builder that has been used already
        let b = s.builder(true, p);
        let _ = b.to_form(sym_str("method0"), "u", &());
        log_set("sign", "");
        b.authorize(m, u, &RQ)
    };
    e_c19_clone Query true St::full(), PM::ALL, sym_str("method"); |s, p, m, u, buf| (false) {
        let b = s.builder(true, p);
        b.clone().into_query(m, String::from(u), &RQ)
    };
}

macro_rules! verbs {
    ($($name:ident $v:literal $f:ident;)*) => { agree! { "C18"
        $($name Header true St::full(), PM::ALL, $v; |s, p, m, u, buf| (false) s.builder(true, p).$f(U(u), &RQ);)*
    } };
}
macro_rules! verbs_form {
    ($($name:ident $v:literal $f:ident;)*) => { agree! { "C18"
        $($name Form true St::full(), PM::ALL, $v; |s, p, m, u, buf| (false) s.builder(true, p).$f(U(u), &RQ);)*
    } };
}
macro_rules! verbs_query {
    ($($name:ident $v:literal $f:ident;)*) => { agree! { "C18"
        $($name Query true St::full(), PM::ALL, $v; |s, p, m, u, buf| (false) s.builder(true, p).$f(W(String::from(u)), &RQ);)*
    } };
}
macro_rules! verbs_free {
    ($($name:ident $v:literal $f:ident;)*) => { agree! { "C18"
        $($name Header true St::NEW, NONE, $v; |s, p, m, u, buf| (false) oauth::$f(U(u), &RQ, &token2(), p);)*
    } };
}

verbs! {
    e_c18_get "GET" get;
    e_c18_put "PUT" put;
    e_c18_post "POST" post;
    e_c18_delete "DELETE" delete;
    e_c18_options "OPTIONS" options;
    e_c18_head "HEAD" head;
    e_c18_connect "CONNECT" connect;
    e_c18_patch "PATCH" patch;
    e_c18_trace "TRACE" trace;
}
verbs_form! {
    e_c18_put_form "PUT" put_form;
    e_c18_post_form "POST" post_form;
    e_c18_options_form "OPTIONS" options_form;
    e_c18_patch_form "PATCH" patch_form;
}
verbs_query! {
    e_c18_get_query "GET" get_query;
    e_c18_put_query "PUT" put_query;
    e_c18_post_query "POST" post_query;
    e_c18_delete_query "DELETE" delete_query;
    e_c18_options_query "OPTIONS" options_query;
    e_c18_head_query "HEAD" head_query;
    e_c18_connect_query "CONNECT" connect_query;
    e_c18_patch_query "PATCH" patch_query;
    e_c18_trace_query "TRACE" trace_query;
}
verbs_free! {
    e_c18_free_get "GET" get;
    e_c18_free_put "PUT" put;
    e_c18_free_post "POST" post;
    e_c18_free_delete "DELETE" delete;
    e_c18_free_options "OPTIONS" options;
    e_c18_free_head "HEAD" head;
    e_c18_free_connect "CONNECT" connect;
    e_c18_free_patch "PATCH" patch;
    e_c18_free_trace "TRACE" trace;
}

// C20: what the caller hands over is kept and only added to.

/// A writer that knows nothing but `write_str`, with contents of its own.
pub struct WO;
impl Write for WO {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        log_add("wo", s);
        Ok(())
    }
}
impl Display for WO {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(log_get("wo"))
    }
}

fn want_params(s: &St, q: bool) -> S {
    let raw = |a: S, b: S| enc(cat(&[sym_str(a), sym_str(b)]));
    let mut h = cat(&["a=", raw("va1", "va2"), "&b=", sym_str("vb1"), sym_str("vb2")]);
    h = cat(&[h, "&oauth_callback=", enc(sym_str("callback")), "&oauth_consumer_key=", enc(sym_str("ck"))]);
    h = cat(&[h, "&oauth_nonce=", enc(sym_str("nonce")), "&oauth_signature_method=PM&oauth_timestamp=", dec(s.timestamp.unwrap().get())]);
    h = cat(&[h, "&oauth_token=", enc(sym_str("tk")), "&oauth_verifier=", enc(sym_str("verifier")), "&oauth_version=1.0"]);
    cat(&[h, "&z=", raw("vz1", "vz2"), "&oauth_signature=", sig()])
}

macro_rules! appended {
    ($($name:ident $m:ident |$b:ident, $p:ident, $buf:ident| $e:expr;)*) => {$(
        pub fn $name() {
            let s = St::full();
            let pre = sym_str("buf");
            if M::$m == M::Query {
                assume_no(pre, "?");
            }
            let want = match M::$m {
                M::Header => cat(&[pre, s.header(&PM::ALL, Some(sym_str("tk")))]),
                M::Form => cat(&[pre, want_params(&s, false)]),
                M::Query => cat(&[pre, "?", want_params(&s, true)]),
            };
            // a string with room to spare, and the most restricted of writers
            {
                let $b = s.builder(true, PM::ALL);
                let $p = s;
                let mut $buf = String::with_capacity(nd() as usize * 1000);
                $buf.push_str(pre);
                check_eq("C20", &disp($e), want, "a string");
            }
            {
                let $b = s.builder(true, PM::ALL);
                let $p = s;
                log_set("wo", pre);
                let $buf = WO;
                check_eq("C20", &disp($e), want, "a writer");
            }
        }
    )*};
}

appended! {
    e_c20_authorize_with_buf Header |b, s, buf| b.authorize_with_buf(buf, "M", "u", &RQ);
    e_c20_to_form_with_buf Form |b, s, buf| b.to_form_with_buf(buf, "M", "u", &RQ);
    e_c20_into_authorization_with_buf Header |b, s, buf| b.into_authorization_with_buf(buf, "M", "u", &RQ);
    e_c20_into_form_with_buf Form |b, s, buf| b.into_form_with_buf(buf, "M", "u", &RQ);
    e_c20_to_query Query |b, s, buf| b.to_query("M", buf, &RQ);
    e_c20_into_query Query |b, s, buf| b.into_query("M", buf, &RQ);
    e_c20_get_query Query |b, s, buf| b.get_query(buf, &RQ);
    e_c20_auth_authorization Header |b, s, buf| { let a = args(true); let o = s.options(); RQ.serialize(Authorizer::authorization_with_buf(buf, "M", "u", a.client, a.token, &o, PM::ALL)) };
    e_c20_auth_form Form |b, s, buf| { let a = args(true); let o = s.options(); RQ.serialize(Authorizer::form_with_buf(buf, "M", "u", a.client, a.token, &o, PM::ALL)) };
    e_c20_auth_query Query |b, s, buf| { let a = args(true); let o = s.options(); RQ.serialize(Authorizer::query("M", buf, a.client, a.token, &o, PM::ALL)) };
}

/// The Urlencoder alone, with any number of parameters.
fn plain<T: Write + Display>(mut u: Urlencoder<T>, first: S, wout: S) {
    log_set("wout", wout);
    let mut sep = first;
    while nd() {
        let k = fresh_str("k");
        let v = PV::fresh();
        if nd() {
            u.serialize_parameter(k, v);
            log_add("wout", cat(&[sep, k, "=", enc(v.s())]));
        } else {
            u.serialize_parameter_encoded(k, v);
            log_add("wout", cat(&[sep, k, "=", v.s()]));
        }
        sep = "&";
        if nd() {
            u.serialize_oauth_parameters();
        }
    }
    let out = disp(u.end());
    check_eq("C20", &out, log_get("wout"), "output");
    check_eq("C35", &out, log_get("wout"), "output");
    check_eq("C07", &out, log_get("wout"), "output");
}
pub fn e_c35_form() {
    plain(Urlencoder::form(), "", "");
}
pub fn e_c35_form_with_buf() {
    log_set("wo", sym_str("buf"));
    plain(Urlencoder::form_with_buf(WO), "", sym_str("buf"));
}
pub fn e_c35_query() {
    log_set("wo", sym_str("buf"));
    plain(Urlencoder::query(WO), "?", sym_str("buf"));
}
pub fn e_c35_query_string() {
    plain(Urlencoder::query(String::from(sym_str("buf"))), "?", sym_str("buf"));
}
pub fn e_c35_to_form() {
    let out = oauth::to_form(&RQ);
    let raw = |a: S, b: S| enc(cat(&[sym_str(a), sym_str(b)]));
    check_eq("C35", &out, cat(&["a=", raw("va1", "va2"), "&b=", sym_str("vb1"), sym_str("vb2"), "&z=", raw("vz1", "vz2")]), "output");
    check_eq("C35", &oauth::to_form(&()), "", "no parameters");
}
pub fn e_c35_to_query() {
    let uri = sym_str("uri");
    let out = oauth::to_query(String::from(uri), &RQ);
    let raw = |a: S, b: S| enc(cat(&[sym_str(a), sym_str(b)]));
    check_eq("C35", &out, cat(&[uri, "?a=", raw("va1", "va2"), "&b=", sym_str("vb1"), sym_str("vb2"), "&z=", raw("vz1", "vz2")]), "output");
    check_eq("C35", &oauth::to_query(String::from(uri), &()), uri, "no parameters");
}

// C21: options.

/// Checks what `o` says against `st`.
fn shows(o: &Options<'_>, st: &St, what: S) {
    let a = args(false);
    let pm = PM { use_nonce: st.nonce.is_some(), use_timestamp: st.timestamp.is_some() };
    let out = ().serialize(Authorizer::authorization("M", "u", a.client, None, o, pm.clone()));
    check_eq("C21", &out, st.header(&pm, None), what);
    let (r, c) = (effects("rng"), effects("clock"));
    let _ = ().serialize(Authorizer::authorization("M", "u", a.client, None, o, PM::ALL));
    check("C21", (effects("rng") > r) == st.nonce.is_none(), "a nonce is made exactly when none is set");
    check("C21", (effects("clock") > c) == st.timestamp.is_none(), "the clock is read exactly when no timestamp is set");
}

fn shows_builder(b: &Builder<'_, PM, S, S>, st: &St, token: Option<S>, what: S) {
    let mut b = b.clone();
    let (r, c) = (effects("rng"), effects("clock"));
    let _ = b.authorize("M", "u", &());
    check("C21", (effects("rng") > r) == st.nonce.is_none(), "a nonce is made exactly when none is set");
    check("C21", (effects("clock") > c) == st.timestamp.is_none(), "the clock is read exactly when no timestamp is set");
    // set what is not comparable
    let mut st = *st;
    if st.nonce.is_none() {
        st.nonce = Some(sym_str("nonce0"));
        b.nonce(sym_str("nonce0"));
    }
    if st.timestamp.is_none() {
        st.timestamp = Some(ts("timestamp0"));
        b.timestamp(ts("timestamp0"));
    }
    log_set("sign", "");
    let out = b.authorize("M", "u", &());
    check_eq("C21", &out, st.header(&PM::ALL, token), what);
}

macro_rules! setters {
    ($($f:ident: $some:ident, $none:ident, $val:expr;)*) => {$(
        pub fn $some() {
            // all the others set, or none of them
            let mut st = if nd() { St::full() } else { St::NEW };
            let mut o = st.options();
            let mut b = st.builder(false, PM::ALL);
            let v = $val;
            st.$f = v.into();
            if nd() {
                o.$f(v);
                shows(&o, &st, "set");
            } else {
                b.$f(v);
                shows_builder(&b, &st, None, "set");
            }
        }
        pub fn $none() {
            let mut st = if nd() { St::full() } else { St::NEW };
            let mut o = st.options();
            let mut b = st.builder(true, PM::ALL);
            st.$f = St::NEW.$f;
            if nd() {
                o.$f(St::NEW.$f);
                shows(&o, &st, "cleared");
            } else {
                b.$f(St::NEW.$f);
                shows_builder(&b, &st, Some(sym_str("tk")), "cleared");
            }
        }
    )*};
}

setters! {
    callback: e_c21_callback, e_c21_no_callback, sym_str("x");
    verifier: e_c21_verifier, e_c21_no_verifier, sym_str("x");
    nonce: e_c21_nonce, e_c21_no_nonce, sym_str("x");
    timestamp: e_c21_timestamp, e_c21_no_timestamp, ts("x");
    version: e_c21_version, e_c21_no_version, true;
}

pub fn e_c21_new() {
    shows(&Options::new(), &St::NEW, "new");
}
pub fn e_c21_default() {
    shows(&Options::default(), &St::NEW, "default");
}
pub fn e_c21_builder_new() {
    shows_builder(&Builder::new(Credentials::new(sym_str("ck"), sym_str("sec:cs")), PM::ALL), &St::NEW, None, "new");
}
pub fn e_c21_with_token() {
    shows_builder(&Builder::with_token(token2(), PM::ALL), &St::NEW, Some(sym_str("tk")), "with_token");
}

pub fn e_c21_chain() {
    let mut o = Options::new();
    o.version(true).timestamp(ts("timestamp")).nonce(sym_str("nonce")).verifier(sym_str("verifier")).callback(sym_str("callback"));
    shows(&o, &St::full(), "chain");
    shows(&o.clone(), &St::full(), "clone");
    let mut b = Builder::with_token(token2(), PM::ALL);
    b.version(true).timestamp(ts("timestamp")).nonce(sym_str("nonce")).verifier(sym_str("verifier")).callback(sym_str("callback")).token(None);
    shows_builder(&b, &St::full(), None, "chain");
}

pub fn e_c21_token() {
    let mut b = St::full().builder(nd(), PM::ALL);
    let t = Credentials::new(sym_str("tk2"), sym_str("sec:ts2"));
    if nd() {
        b.token(t);
        shows_builder(&b, &St::full(), Some(sym_str("tk2")), "token set");
        log_set("sign", "");
        let _ = b.authorize("M", "u", &());
        check_has("C21", log_get("sign"), cat(&["new(", sym_str("sec:cs"), ",Some(", sym_str("sec:ts2"), "))"]), "the secrets of the new token");
    } else {
        b.token(None);
        shows_builder(&b, &St::full(), None, "token cleared");
        log_set("sign", "");
        let _ = b.authorize("M", "u", &());
        check_has("C21", log_get("sign"), cat(&["new(", sym_str("sec:cs"), ",None)"]), "no token secret");
    }
}

// C17: Either.

/// A signature method that answers every call in its own way.
#[derive(Clone)]
pub struct PM2(pub S);
pub struct PSign2(S);

impl SignatureMethod for PM2 {
    type Sign = PSign2;
    fn sign_with(self, cs: &str, ts: Option<&str>) -> PSign2 {
        log_add("sign", cat(&[self.0, ".sign_with(", cs]));
        match ts {
            Some(t) => log_add("sign", cat(&[",Some(", t, "))"])),
            None => log_add("sign", ",None)"),
        }
        PSign2(self.0)
    }
}

impl PSign2 {
    fn call(&self, f: S, v: impl Display) {
        let v = disp(v);
        log_add("sign", cat(&[" ", self.0, ".", f, "(", &v, ")"]));
    }
}

macro_rules! log_display {
    ($($f:ident)*) => {$(
        fn $f<V: Display>(&mut self, v: V) {
            self.call(stringify!($f), v);
        }
    )*};
}

impl Sign for PSign2 {
    type Signature = PV;
    fn get_signature_method_name(&self) -> &'static str {
        self.0
    }
    fn request_method(&mut self, v: &str) {
        self.call("request_method", v);
    }
    fn parameter<V: Display>(&mut self, key: &str, value: V) {
        let v = disp(value);
        log_add("sign", cat(&[" ", self.0, ".parameter(", key, ",", &v, ")"]));
    }
    fn delimiter(&mut self) {
        self.call("delimiter", "");
    }
    fn end(self) -> PV {
        self.call("end", "");
        PV(sym_str("sig1"), self.0)
    }
    log_display! { uri callback consumer_key nonce token verifier }
    fn use_nonce(&self) -> bool {
        sym_u64("use_nonce") == 0
    }
    fn use_timestamp(&self) -> bool {
        sym_u64("use_timestamp") == 0
    }
    fn signature_method(&mut self) {
        self.call("signature_method", "");
    }
    fn timestamp(&mut self, v: u64) {
        self.call("timestamp", dec(v));
    }
    fn version(&mut self) {
        self.call("version", "");
    }
}

fn want_all(name: S, ts: bool) -> S {
    let v = cat(&[sym_str("v1"), sym_str("v2")]);
    let t = if ts { cat(&[",Some(", sym_str("sec:ts"), "))"]) } else { ",None)" };
    let mut l = cat(&[name, ".sign_with(", sym_str("sec:cs"), t, name]);
    let c = |f: S, v: S| cat(&[" ", name, ".", f, "(", v, ")"]);
    l = cat(&[l, c("request_method", sym_str("method")), c("uri", v), c("parameter", cat(&[sym_str("k"), ",", v])), c("delimiter", "")]);
    l = cat(&[l, c("callback", v), c("consumer_key", v), c("nonce", v), c("signature_method", ""), c("timestamp", dec(sym_u64("t")))]);
    l = cat(&[l, c("token", v), c("verifier", v), c("version", "")]);
    l = cat(&[l, if sym_u64("use_nonce") == 0 { "nonce" } else { "no nonce" }, if sym_u64("use_timestamp") == 0 { "timestamp" } else { "no timestamp" }]);
    cat(&[l, c("end", ""), " = ", sym_str("sig1"), name])
}

fn use_with<T: SignatureMethod>(m: T, ts: Option<S>) -> S {
    log_set("sign", "");
    let mut s = m.sign_with(sym_str("sec:cs"), ts);
    let v = || PV(sym_str("v1"), sym_str("v2"));
    log_add("sign", s.get_signature_method_name());
    s.request_method(sym_str("method"));
    s.uri(v());
    s.parameter(sym_str("k"), v());
    s.delimiter();
    s.callback(v());
    s.consumer_key(v());
    s.nonce(v());
    s.signature_method();
    s.timestamp(sym_u64("t"));
    s.token(v());
    s.verifier(v());
    s.version();
    log_add("sign", if s.use_nonce() { "nonce" } else { "no nonce" });
    log_add("sign", if s.use_timestamp() { "timestamp" } else { "no timestamp" });
    let r = disp(s.end());
    log_add("sign", cat(&[" = ", &r]));
    log_get("sign")
}

pub fn e_c17_left() {
    let t = nd();
    let ts = if t { Some(sym_str("sec:ts")) } else { None };
    let m: Either<PM2, PM> = Either::Left(PM2("L"));
    check_eq("C17", use_with(m, ts), want_all("L", t), "left");
}
pub fn e_c17_right() {
    let t = nd();
    let ts = if t { Some(sym_str("sec:ts")) } else { None };
    let m: Either<PM, PM2> = Either::Right(PM2("R"));
    check_eq("C17", use_with(m, ts), want_all("R", t), "right");
}
pub fn e_c17_nested() {
    let m: Either<Either<PM, PM2>, PM2> = if nd() { Either::Right(PM2("A")) } else { Either::Left(Either::Right(PM2("A"))) };
    check_eq("C17", use_with(m, None), want_all("A", false), "nested");
}
pub fn e_c17_authorize() {
    // through a whole authorization
    let st = St::full();
    let left: Either<PM2, PM2> = if nd() { Either::Left(PM2("X")) } else { Either::Right(PM2("X")) };
    let c = || Credentials::new(sym_str("ck"), sym_str("sec:cs"));
    let t = || Some(Credentials::new(sym_str("tk"), sym_str("sec:ts")));
    let o = st.options();
    log_set("sign", "");
    let a = RQ.serialize(Authorizer::authorization("M", "u", c(), t(), &o, left));
    let la = log_get("sign");
    log_set("sign", "");
    let b = RQ.serialize(Authorizer::authorization("M", "u", c(), t(), &o, PM2("X")));
    check_eq("C17", &a, &b, "header");
    check_eq("C17", la, log_get("sign"), "calls");
}
