PROP = "C17"
NEEDS = "an Either of signature methods of which one overrides use_nonce"
BREAKS = "Either does not forward use_nonce"
EDITS = [("oauth1-request/src/signature_method/either.rs", """        fn use_nonce(&self) -> bool;
""", "")]
FEATURES = '"std", "alloc", "derive", "hmac-sha1", "either"'
DEPS = 'either = { version = "1", default-features = false }\n'
DEMO = r'''
use oauth1_request as oauth;
use oauth::signature_method::{Sign, SignatureMethod};
use std::fmt::Display;
#[derive(Clone)]
struct M;
struct S;
impl SignatureMethod for M { type Sign = S; fn sign_with(self, _: &str, _: Option<&str>) -> S { S } }
impl Sign for S {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str { "M" }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: Display>(&mut self, _: T) {}
    fn parameter<V: Display>(&mut self, _: &str, _: V) {}
    fn delimiter(&mut self) {}
    fn end(self) -> String { String::new() }
    fn use_nonce(&self) -> bool { false }
}
fn main() {
    let e: either::Either<M, M> = either::Either::Left(M);
    let b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), e);
    assert!(!b.authorize("GET", "http://example.com/", &()).contains("nonce"));
}
'''
