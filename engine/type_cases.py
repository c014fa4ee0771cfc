"""Programs that must type-check: what the types of the library promise, and the API of every feature combination."""

# (name, the features it needs, the program)
AUTO = "pub fn all<T: ?Sized + Send + Sync + Unpin + core::panic::UnwindSafe + core::panic::RefUnwindSafe>() {}\n"
FULL = [
    ("m_auto_methods", "use oauth::signature_method::*; pub fn f<W>() { %s }" % " ".join(
        "crate::all::<%s>();" % t for t in ["HmacSha1", "Plaintext", "Plaintext<W>", "RsaSha1", "rsa_sha1_06::RsaSha1", "rsa_sha1_09::RsaSha1", "either::Either<HmacSha1, Plaintext>"])),
    ("m_auto_signs", "use oauth::signature_method::*; pub fn f() { %s }" % " ".join(
        "crate::all::<<%s as SignatureMethod>::Sign>(); crate::all::<<<%s as SignatureMethod>::Sign as Sign>::Signature>();" % (t, t)
        for t in ["HmacSha1", "Plaintext", "rsa_sha1_06::RsaSha1", "rsa_sha1_09::RsaSha1", "&rsa_sha1_09::RsaSha1", "either::Either<HmacSha1, Plaintext>"])),
    ("m_auto_serializers", "use oauth::serializer::{*, auth::*, recorder::*}; use oauth::signature_method::*; pub fn f<'a>() { crate::all::<Urlencoder>(); crate::all::<Options<'a>>(); crate::all::<Authorizer<'a, HmacSha1>>(); "
     "crate::all::<Authorizer<'a, Plaintext, String>>(); crate::all::<Recorder>(); crate::all::<Record>(); crate::all::<Record<&'a str, u8>>(); }"),
    ("m_auto_requests", "pub fn f<'a>() { crate::all::<oauth::ParameterList<&'a str, &'a str>>(); crate::all::<oauth::ParameterList<&'a str, String, [(&'a str, String); 2]>>(); "
     "crate::all::<oauth::request::AssertSorted<std::vec::IntoIter<(&'a str, u8)>>>(); }"),
    ("m_auto_builder", "pub fn f<'a>() { crate::all::<oauth::Builder<'a, oauth::HmacSha1>>(); crate::all::<oauth::Builder<'a, oauth::Plaintext, &'a str, String>>(); "
     "crate::all::<oauth::Credentials>(); crate::all::<oauth::Credentials<&'a str>>(); crate::all::<oauth::Token>(); crate::all::<oauth::Token<&'a str, String>>(); }"),
    ("m_auto_generic", "use oauth::signature_method::SignatureMethod; fn send<T: Send + Sync>() {} pub fn f<'a, M: SignatureMethod + Send + Sync, C: Send + Sync, T: Send + Sync>() "
     "{ send::<oauth::Builder<'a, M, C, T>>(); send::<oauth::Credentials<C>>(); send::<oauth::Token<C, T>>(); send::<oauth::request::AssertSorted<C>>(); }"),
    ("m_auto_phantom", "fn send<T: Send + Sync + Unpin>() {} pub fn f<K, V, P, W, A: Send + Sync + Unpin>() { send::<oauth::ParameterList<K, V, A, P>>(); send::<oauth::Plaintext<W>>(); }"),
    ("m_auto_iter", "fn send<T: Send + Sync + Unpin>() {} pub fn f<'a>(l: &'a oauth::ParameterList<&'a str, u8>) { fn of<T: Send + Sync + Unpin>(_: T) {} of(l.iter()); }"),
    ("m_auto_signatures", "use oauth::signature_method::*; fn of<T: Send + Sync + Unpin>(_: &T) {} pub fn f() { let s = HmacSha1::new().sign_with(\"a\", None); of(&s); of(&s.end()); let s = <Plaintext>::new().sign_with(\"a\", None); of(&s); of(&s.end()); }"),
    ("m_string_types", "use std::borrow::Cow; use std::rc::Rc; pub fn f<'a>(a: Cow<'a, str>, b: Box<str>, c: Rc<str>, d: &'a String) -> String { let _ = oauth::to_form(&oauth::ParameterList::new([(a.clone(), 1)])); let _ = oauth::to_form(&oauth::ParameterList::new([(b.clone(), 1)])); "
     "let _ = oauth::to_form(&oauth::request::AssertSorted::new(std::iter::once((c.clone(), 1)))); let _ = oauth::to_query(String::new(), &oauth::ParameterList::new(vec![(d, 'x')])); let t = oauth::Token::from_parts(a.clone(), a, b.clone(), b); oauth::get(&c, &(), &t, oauth::HMAC_SHA1) }"),
    ("m_list_collections", "pub fn f() { let mut l: oauth::ParameterList<&str, u8> = Default::default(); l.extend(vec![(\"a\", 1)]); let l: oauth::ParameterList<&str, u8> = vec![(\"a\", 1)].into_iter().collect(); let _: Vec<(&str, u8)> = l.into_inner(); let p = (\"a\", 1u8); "
     "let l: oauth::ParameterList<&str, u8, Vec<&(&str, u8)>, &(&str, u8)> = vec![&p].into(); for x in l.iter() { let _: &(&str, u8) = x; } let l: oauth::ParameterList<_, _, Box<[(&str, u8)]>> = oauth::ParameterList::new(vec![p].into_boxed_slice()); let _: &[(&str, u8)] = l.as_ref(); }"),
    ("m_moved_between_threads", "pub fn f() { let b = oauth::Builder::<_, &str>::new(oauth::Credentials::new(\"a\", \"b\"), oauth::HmacSha1::new()); "
     "let c = std::sync::Arc::new(b); let d = c.clone(); std::thread::spawn(move || d.get(\"u\", &())).join().unwrap(); c.get(\"u\", &()); }"),
    ("m_copy", "fn copy<T: Copy>() {} pub fn f<'a, W: Default + core::fmt::Display + core::fmt::Write>() { copy::<oauth::HmacSha1>(); copy::<oauth::Plaintext<W>>(); copy::<oauth::Credentials<&'a str>>(); copy::<oauth::Token<&'a str, &'a str>>(); "
     "copy::<oauth::request::AssertSorted<[(&'a str, u8); 2]>>(); }"),
    ("m_clone", "use oauth::signature_method::*; use oauth::serializer::{*, auth::*, recorder::*}; fn clone<T: Clone>() {} pub fn f<'a, M: SignatureMethod + Clone, C: Clone, T: Clone, W: Clone>() where M::Sign: Clone { clone::<oauth::Builder<'a, M, C, T>>(); clone::<Options<'a>>(); "
     "clone::<Authorizer<'a, M, W>>(); clone::<Urlencoder<W>>(); clone::<Recorder>(); clone::<Record<C, T>>(); clone::<oauth::Credentials<C>>(); clone::<oauth::Token<C, T>>(); "
     "clone::<rsa_sha1_06::RsaSha1>(); clone::<rsa_sha1_09::RsaSha1>(); clone::<<HmacSha1 as SignatureMethod>::Sign>(); clone::<<Plaintext as SignatureMethod>::Sign>(); }"),
    ("m_debug", "use oauth::signature_method::*; use oauth::serializer::{*, auth::*, recorder::*}; fn debug<T: core::fmt::Debug>() {} pub fn f<'a>() { debug::<HmacSha1>(); debug::<Plaintext>(); debug::<rsa_sha1_06::RsaSha1>(); debug::<rsa_sha1_09::RsaSha1>(); "
     "debug::<Options<'a>>(); debug::<Authorizer<'a, HmacSha1>>(); debug::<Urlencoder>(); debug::<Recorder>(); debug::<Record>(); debug::<oauth::Builder<'a, HmacSha1>>(); debug::<oauth::Credentials>(); debug::<oauth::Token>(); }"),
    ("m_default", "fn default<T: Default>() {} pub fn f<'a>() { default::<oauth::HmacSha1>(); default::<oauth::Plaintext>(); default::<oauth::serializer::auth::Options<'a>>(); default::<oauth::serializer::recorder::Recorder>(); }"),
    ("m_const", "pub const A: oauth::HmacSha1 = oauth::HmacSha1::new(); pub const B: oauth::Plaintext = oauth::Plaintext::new(); pub const C: oauth::HmacSha1 = oauth::HMAC_SHA1; pub static D: oauth::Plaintext = oauth::PLAINTEXT;"),
    ("m_const_rsa", "use oauth::signature_method::*; pub const fn a(k: rsa_sha1_06::RsaPrivateKey) -> rsa_sha1_06::RsaSha1 { rsa_sha1_06::RsaSha1::new(k) } pub const fn b(k: rsa_sha1_09::RsaPrivateKey) -> rsa_sha1_09::RsaSha1 { rsa_sha1_09::RsaSha1::new(k) }"),
    ("m_covariant_options", "pub fn f<'s>(x: oauth::serializer::auth::Options<'static>) -> oauth::serializer::auth::Options<'s> { x }"),
    ("m_covariant_builder", "pub fn f<'s>(x: oauth::Builder<'static, oauth::HmacSha1, &'static str>) -> oauth::Builder<'s, oauth::HmacSha1, &'s str> { x }"),
    ("m_covariant_credentials", "pub fn f<'s>(x: oauth::Credentials<&'static str>) -> oauth::Credentials<&'s str> { x } pub fn g<'s>(x: oauth::Token<&'static str>) -> oauth::Token<&'s str> { x }"),
    ("m_covariant_list", "pub fn f<'s>(x: oauth::ParameterList<&'static str, u8>) -> oauth::ParameterList<&'s str, u8> { x }"),
    ("m_covariant_sign", "use oauth::signature_method::*; pub type S<'a> = <&'a rsa_sha1_09::RsaSha1 as SignatureMethod>::Sign; pub fn f<'s>(x: rsa_sha1_09::RsaSha1Sign<&'static rsa_sha1_09::RsaPrivateKey>) -> rsa_sha1_09::RsaSha1Sign<&'s rsa_sha1_09::RsaPrivateKey> { x }"),
    ("m_owned_sign", "use oauth::signature_method::*; fn own<T: 'static>(_: T) {} pub fn f(a: &str, b: &str) { own(HmacSha1::new().sign_with(a, Some(b))); own(<Plaintext>::new().sign_with(a, None)); }"),
    ("m_request_impls", "fn request<R: oauth::Request + ?Sized>() {} pub fn f<'a, R: oauth::Request + 'a>() { request::<()>(); request::<&'a R>(); request::<&'a &'a R>(); request::<&'a mut R>(); request::<oauth::ParameterList<&'a str, u8>>(); request::<oauth::request::AssertSorted<std::vec::IntoIter<(&'a str, u8)>>>(); }"),
    ("m_method_impls", "use oauth::signature_method::*; fn method<M: SignatureMethod>() {} pub fn f<'a, L: SignatureMethod, R: SignatureMethod>() { method::<HmacSha1>(); method::<Plaintext>(); method::<rsa_sha1_06::RsaSha1>(); method::<&'a rsa_sha1_06::RsaSha1>(); "
     "method::<rsa_sha1_09::RsaSha1>(); method::<&'a rsa_sha1_09::RsaSha1>(); method::<either::Either<L, R>>(); }"),
    ("m_rsa_conversions", "use oauth::signature_method::*; pub fn f(k: rsa_sha1_09::RsaPrivateKey) -> rsa_sha1_09::RsaSha1 { let _: &rsa_sha1_09::RsaSha1 = k.as_ref(); k.into() } pub fn g(k: rsa_sha1_06::RsaPrivateKey) -> rsa_sha1_06::RsaSha1 { let _: &rsa_sha1_06::RsaSha1 = k.as_ref(); k.into() }"),
    ("m_user_method", """use core::fmt::Display; use oauth::signature_method::*;
#[derive(Clone)] pub struct M; pub struct N(String);
impl SignatureMethod for M { type Sign = N; fn sign_with(self, c: &str, _: Option<&str>) -> N { N(c.into()) } }
impl Sign for N { type Signature = String; fn get_signature_method_name(&self) -> &'static str { "M" } fn request_method(&mut self, _: &str) {} fn uri<T: Display>(&mut self, _: T) {}
  fn parameter<V: Display>(&mut self, _: &str, _: V) {} fn delimiter(&mut self) {} fn end(self) -> String { self.0 } }
pub fn f() -> String { oauth::Builder::<_, &str>::new(oauth::Credentials::new("a", "b"), M).get("u", &()) }"""),
    ("m_user_request", """use oauth::serializer::{Serializer, SerializerExt};
pub struct R; impl oauth::Request for R { fn serialize<S: Serializer>(&self, mut s: S) -> S::Output { s.serialize_parameter("a", 1); s.serialize_oauth_parameters(); s.end() } }
pub fn f() -> String { oauth::to_form(&R) }"""),
    ("m_user_serializer", """use core::fmt::Display; use oauth::serializer::Serializer;
pub struct W; impl Serializer for W { type Output = (); fn serialize_parameter<V: Display>(&mut self, _: &str, _: V) {} fn serialize_parameter_encoded<V: Display>(&mut self, _: &str, _: V) {} oauth::skip_serialize_oauth_parameters!(); fn end(self) {} }
pub fn f<R: oauth::Request>(r: &R) { r.serialize(W) }"""),
    ("m_derived", "#[derive(oauth::Request)] pub struct R<'a, T> { pub a: &'a str, pub t: T, pub o: Option<u8> } pub fn f<'a, T: Send + Sync + core::fmt::Display>(r: &R<'a, T>) -> String { fn send<T: Send + Sync>(_: &T) {} send(r); oauth::to_form(r) }"),
    ("m_borrowed_and_owned", "pub fn f(c: oauth::Credentials<String>, t: oauth::Token<String>) { let _: oauth::Credentials<&str> = c.as_ref(); let _: oauth::Token<&str> = t.as_ref(); "
     "let mut b = oauth::Builder::with_token(t.as_ref(), oauth::HmacSha1::new()); b.get(\"u\", &()); let mut b = oauth::Builder::<_, String, String>::new(c.clone(), oauth::HmacSha1::new()); b.token(Some(c)); b.into_authorization(\"M\", \"u\", &()); }"),
    ("m_display_values", "pub fn f<'a>(d: &'a dyn core::fmt::Display) -> String { oauth::to_form(&oauth::ParameterList::new([(\"a\", d), (\"b\", &1 as &dyn core::fmt::Display)])) }"),
    ("m_display_uri", "pub fn f(u: impl core::fmt::Display) -> String { oauth::get(u, &(), &oauth::Token::from_parts(\"a\", \"b\", \"c\", \"d\"), oauth::HmacSha1::new()) }"),
    ("m_unsized_output", "pub fn f<'a>(w: &'a mut dyn core::fmt::Write) -> &'a mut dyn core::fmt::Write { use oauth::Request; ().serialize(oauth::serializer::Urlencoder::form_with_buf(w)) }"),
    ("m_result_not_borrowed", "pub fn f<R: oauth::Request>(r: R) -> String { let c = String::from(\"c\"); let n = String::from(\"n\"); let mut b = oauth::Builder::<_, &str>::new(oauth::Credentials::new(&c, &c), oauth::HmacSha1::new()); b.nonce(&*n).callback(&*n).verifier(None); b.authorize(&c, &n, &r) }"),
]

# What there is with a feature, and without any.
API = [
    ("m_core", "", "use oauth::serializer::{Serializer, SerializerExt, Urlencoder, auth::{Authorizer, Options}}; use oauth::signature_method::{Sign, SignatureMethod, Plaintext}; use core::fmt::{Display, Write};\n"
     "pub fn f<'a, M: SignatureMethod, W: Write + Display>(w: W, c: oauth::Credentials<&'a str>, o: &'a Options<'a>, m: M) -> W { use oauth::Request; ().serialize(Authorizer::authorization_with_buf(w, \"M\", \"u\", c, None, o, m)) }\n"
     "pub fn g<W: Write>(w: W) -> W { use oauth::Request; oauth::request::AssertSorted::new([(\"a\", 1)]).serialize(Urlencoder::form_with_buf(w)) }\n"
     "pub fn h<W: Default + Write + Display>(c: oauth::Credentials<&str>, w: W) -> W { oauth::Builder::<Plaintext<W>, &str, &str>::new(c, Plaintext::with_buf()).to_query(\"M\", w, &oauth::ParameterList::<_, _, _, (&str, u8)>::new([(\"a\", 1u8)])) }"),
    ("m_alloc", "alloc", "extern crate alloc; use alloc::string::String; pub fn f() -> String { oauth::to_form(&oauth::ParameterList::new([(\"a\", 1)])) } pub fn g(t: &oauth::Token) -> String { oauth::get(\"u\", &(), t, oauth::Plaintext::new()) } "
     "pub fn h(t: &oauth::Token<&str>) -> String { oauth::Builder::with_token(t.as_ref(), oauth::PLAINTEXT).post_form(\"u\", &()) }"),
    ("m_std", "std", "extern crate std; pub fn f() -> std::string::String { oauth::to_form(&()) }"),
    ("m_hmac", "hmac-sha1", "use oauth::signature_method::{Sign, SignatureMethod}; pub fn f(w: &mut dyn core::fmt::Write) { let mut s = oauth::HMAC_SHA1.sign_with(\"a\", None); s.request_method(\"M\"); let _ = write!(w, \"{}\", s.end()); } pub type T = oauth::HmacSha1;"),
    ("m_rsa06", "rsa-sha1-06", "use oauth::signature_method::rsa_sha1_06::{RsaPrivateKey, RsaSha1}; pub fn f(k: RsaPrivateKey) -> RsaSha1 { k.into() }"),
    ("m_rsa09", "rsa-sha1-09", "use oauth::signature_method::rsa_sha1_09::{RsaPrivateKey, RsaSha1}; pub fn f(k: RsaPrivateKey) -> RsaSha1 { k.into() }"),
    ("m_either", "either", "use oauth::signature_method::SignatureMethod; pub fn f<A: SignatureMethod, B: SignatureMethod>() { fn m<M: SignatureMethod>() {} m::<either::Either<A, B>>() }"),
    ("m_derive", "derive", "#[derive(oauth::Request)] pub struct R { pub a: u8, pub o: Option<u8> } pub fn f<S: oauth::serializer::Serializer>(r: &R, s: S) -> S::Output { oauth::Request::serialize(r, s) }"),
    ("m_serde", "serde", "pub fn f<'a, S: serde::Serializer>(c: &oauth::Credentials<&'a str>, s: S) -> Result<S::Ok, S::Error> { serde::Serialize::serialize(c, s) } pub fn g<'de, D: serde::Deserializer<'de>>(d: D) -> Result<oauth::Credentials<&'de str>, D::Error> { serde::Deserialize::deserialize(d) }"),
    ("m_test", "test", "pub fn f() -> usize { oauth::Request::serialize(&(), oauth::serializer::recorder::Recorder::new()).len() }"),
]
FEATURES = [f for _, f, _ in API if f]


def combos(tier):
    import itertools
    other = [f for f in FEATURES if f not in ("alloc", "std")]
    bases = [(), ("alloc",), ("std",)]
    if tier == "thorough":
        sets = [s for k in range(len(other) + 1) for s in itertools.combinations(other, k)]
    else:
        # none, each one, each pair with every base; all, and all but one
        sets = [s for k in (0, 1, 2) for s in itertools.combinations(other, k)] + [tuple(o for o in other if o != x) for x in other] + [tuple(other)]
        return [b + s for s in sets if len(s) != 2 for b in bases] + [bases[i % 3] + s for i, s in enumerate(s for s in sets if len(s) == 2)]
    return [b + s for s in sets for b in bases]
