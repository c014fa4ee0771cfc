PROP = "C47"
NEEDS = "a release build and a value with a sub-delimiter such as '!'"
BREAKS = "a fast path of release builds lets sub-delimiters through when double encoding"
EDITS = [("oauth1-request/src/util/percent_encoding.rs", """                let mut bytes = s.as_bytes();
                while let Some""", """                let mut bytes = s.as_bytes();
                if !cfg!(debug_assertions) && !bytes.iter().any(|b| !b.is_ascii_graphic() || b"%&=+#\\"<>?/:@".contains(b)) {
                    // Nothing to encode.
                    return self.0.write_str(s);
                }
                while let Some""")]
ARGS = "--release"
DEMO = r'''
use std::fmt::{Display, Write};
use oauth1_request::serializer::{auth::{Authorizer, Options}, Serializer};
#[derive(Clone)]
struct TM;
struct TS(String);
impl oauth1_request::signature_method::SignatureMethod for TM {
    type Sign = TS;
    fn sign_with(self, _: &str, _: Option<&str>) -> TS { TS(String::new()) }
}
impl oauth1_request::signature_method::Sign for TS {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str { "T" }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: Display>(&mut self, _: T) {}
    fn parameter<V: Display>(&mut self, k: &str, v: V) { write!(self.0, "{}={}", k, v).unwrap() }
    fn delimiter(&mut self) {}
    fn end(self) -> String { self.0 }
}
fn main() {
    let o = Options::new();
    let mut s = Authorizer::form("POST", "http://e", oauth1_request::Credentials::new("a", "b"), None, &o, TM);
    s.serialize_parameter("a", "hi!");
    assert_eq!(s.end(), "a=hi%21&oauth_signature=a=hi%2521");
}
'''
