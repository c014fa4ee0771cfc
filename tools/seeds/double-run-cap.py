PROP = "C02"
NEEDS = "a value with a run of more than 255 unreserved bytes that is followed by a reserved byte"
BREAKS = "the double encoder looks for the end of a run in the first 256 bytes only and then writes the rest unencoded"
EDITS = [("oauth1-request/src/util/percent_encoding.rs", """                        .enumerate()
                        .skip(1)
""", """                        .enumerate()
                        .take(256)
                        .skip(1)
""")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::serializer::{Serializer, auth::{Authorizer, Options}};
use oauth::signature_method::{Sign, SignatureMethod};
use std::cell::RefCell;
use std::rc::Rc;
#[derive(Clone)]
struct Log(Rc<RefCell<String>>);
impl SignatureMethod for Log { type Sign = Log; fn sign_with(self, _: &str, _: Option<&str>) -> Log { self } }
impl Sign for Log {
    type Signature = &'static str;
    fn get_signature_method_name(&self) -> &'static str { "LOG" }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: std::fmt::Display>(&mut self, _: T) {}
    fn parameter<V: std::fmt::Display>(&mut self, k: &str, v: V) { *self.0.borrow_mut() += &format!("{}={}", k, v); }
    fn delimiter(&mut self) {}
    fn end(self) -> &'static str { "sig" }
}
fn main() {
    for n in [0usize, 1, 255, 256, 257, 1000].iter() {
        let log = Log(Rc::new(RefCell::new(String::new())));
        let o = Options::new();
        let mut a = Authorizer::<_, String>::form("GET", "http://a/", oauth::Credentials::new("k", "s"), None, &o, log.clone());
        a.serialize_parameter("p", format!("{} b", "a".repeat(*n)));
        assert_eq!(*log.0.borrow(), format!("p={}%2520b", "a".repeat(*n)));
    }
}
'''
