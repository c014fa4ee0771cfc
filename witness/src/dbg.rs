//! What `Debug` shows of everything that holds a secret.
use crate::auth::{args, options};
use crate::p::*;
use crate::sp::*;
use core::fmt::Debug;
use either::Either;
use oauth1_request as oauth;
use oauth::serializer::auth::{Authorizer, Options};
use oauth::serializer::recorder::Recorder;
use oauth::serializer::{Serializer, SerializerExt, Urlencoder};
use oauth::signature_method::rsa_sha1_06 as rsa06;
use oauth::signature_method::rsa_sha1_09 as rsa09;
use oauth::signature_method::{HmacSha1, Plaintext, Sign, SignatureMethod, HMAC_SHA1, PLAINTEXT};
use oauth::{Builder, Credentials, Token};
use std::boxed::Box;
use std::format;
use std::string::String;

/// All styles of `Debug`.
fn hides<T: Debug>(x: &T, what: S) {
    check_free("C25", &format!("{:?}", x), "sec:", what);
    check_free("C25", &format!("{:#?}", x), "sec:", what);
    check_free("C25", &format!("{:9?}", x), "sec:", what);
    check_free("C25", &format!("{:#9?}", x), "sec:", what);
    check_free("C25", &format!("{:.3?}", x), "sec:", what);
    check_free("C25", &format!("{:#.3?}", x), "sec:", what);
    check_free("C25", &format!("{:+#x?}", x), "sec:", what);
    check_free("C25", &format!("{:X?}", x), "sec:", what);
    check_free("C25", &format!("{:_^-08.1?}", x), "sec:", what);
}
fn client() -> Credentials<S> {
    Credentials::new(sym_str("ck"), sym_str("sec:cs"))
}
fn tok() -> Credentials<S> {
    Credentials::new(sym_str("tk"), sym_str("sec:ts"))
}
fn owned(c: Credentials<S>) -> Credentials {
    c.map(String::from)
}
fn token() -> Token<S, S> {
    Token::new(client(), tok())
}

pub fn e_c25_credentials() {
    hides(&client(), "Credentials<&str>");
    hides(&owned(client()), "Credentials<String>");
    hides(&owned(client()).as_ref(), "Credentials::as_ref");
    hides(&Some(tok()), "Option<Credentials>");
    hides(&(&&client(), 1), "a tuple of a reference to Credentials");
    hides(&[client(), tok()], "an array of Credentials");
    hides(&Box::new(client()), "Box<Credentials>");
}
pub fn e_c25_token() {
    hides(&token(), "Token<&str>");
    hides(&Token::new(owned(client()), owned(tok())), "Token<String>");
    hides(&Token::new(owned(client()), tok()), "Token<String, &str>");
    hides(&token().as_ref(), "Token::as_ref");
    hides(&&token(), "&Token");
}

fn builder<M: SignatureMethod + Debug + Clone>(m: M, what: S) {
    let mut b = Builder::new(client(), m.clone());
    hides(&b, what);
    b.token(tok());
    b.callback(sym_str("callback")).verifier(sym_str("verifier")).nonce(sym_str("nonce")).version(true);
    hides(&b, what);
    hides(&b.clone(), what);
    let c: Builder<'_, M> = Builder::with_token(Token::new(owned(client()), owned(tok())), m);
    hides(&c, what);
}
pub fn e_c25_builder() {
    builder(HMAC_SHA1, "Builder<HmacSha1>");
    builder(PLAINTEXT, "Builder<Plaintext>");
    builder(rsa09::RsaSha1::new(sym_obj("sec:rsa")), "Builder<RsaSha1> (rsa 0.9)");
    builder(rsa06::RsaSha1::new(sym_obj("sec:rsa")), "Builder<RsaSha1> (rsa 0.6)");
}

fn method<M: SignatureMethod + Debug>(m: M, what: S)
where
    M::Sign: Debug,
{
    hides(&m, what);
    let mut s = m.sign_with(sym_str("sec:cs"), if nd() { Some(sym_str("sec:ts")) } else { None });
    hides(&s, what);
    s.request_method("GET");
    s.uri(sym_str("uri"));
    s.parameter("a", sym_str("v"));
    hides(&s, what);
}
pub fn e_c25_hmac() {
    method(HMAC_SHA1, "HmacSha1");
}
pub fn e_c25_plaintext() {
    method(PLAINTEXT, "Plaintext");
    method(Plaintext::<String>::with_buf(), "Plaintext");
}
pub fn e_c25_rsa09() {
    method(rsa09::RsaSha1::new(sym_obj("sec:rsa")), "RsaSha1 (rsa 0.9)");
    method(&rsa09::RsaSha1::new(sym_obj("sec:rsa")), "&RsaSha1 (rsa 0.9)");
}
pub fn e_c25_rsa06() {
    method(rsa06::RsaSha1::new(sym_obj("sec:rsa")), "RsaSha1 (rsa 0.6)");
    method(&rsa06::RsaSha1::new(sym_obj("sec:rsa")), "&RsaSha1 (rsa 0.6)");
}
pub fn e_c25_either() {
    type E = Either<HmacSha1, Either<Plaintext, rsa09::RsaSha1>>;
    method(E::Left(HMAC_SHA1), "Either");
    method(E::Right(Either::Left(PLAINTEXT)), "Either");
    method(E::Right(Either::Right(rsa09::RsaSha1::new(sym_obj("sec:rsa")))), "Either");
}

fn authorizer<M: SignatureMethod + Debug + Clone>(m: M, what: S)
where
    M::Sign: Debug,
{
    let a = args(true);
    let o = options(7);
    hides(&o, "Options");
    let mut s = Authorizer::authorization_with_buf(String::new(), a.method, a.uri, a.client, a.token, &o, m.clone());
    hides(&s, what);
    s.serialize_oauth_parameters();
    hides(&s, what);
    let mut s = Authorizer::form_with_buf(String::new(), a.method, a.uri, a.client, a.token, &o, m.clone());
    s.serialize_parameter("a", sym_str("v"));
    hides(&s, what);
    let mut s = Authorizer::query(a.method, String::from(a.uri), a.client, a.token, &o, m);
    s.serialize_oauth_consumer_key();
    s.serialize_oauth_token();
    hides(&s, what);
}
pub fn e_c25_authorizer_hmac() {
    authorizer(HMAC_SHA1, "Authorizer<HmacSha1>");
}
pub fn e_c25_authorizer_plaintext() {
    authorizer(PLAINTEXT, "Authorizer<Plaintext>");
}
pub fn e_c25_authorizer_rsa() {
    authorizer(rsa09::RsaSha1::new(sym_obj("sec:rsa")), "Authorizer<RsaSha1> (rsa 0.9)");
    authorizer(rsa06::RsaSha1::new(sym_obj("sec:rsa")), "Authorizer<RsaSha1> (rsa 0.6)");
}
