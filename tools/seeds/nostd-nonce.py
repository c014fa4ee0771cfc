PROP = "C46"
NEEDS = "a build without std, and a generated nonce"
BREAKS = "the nonce has two random bytes only, to be sparing with the entropy of small devices"
EDITS = [("oauth1-request/src/serializer/auth.rs", """    rng.fill_bytes(&mut rand);
""", """    let start = if cfg!(feature = "std") { 0 } else { 7 };
    rng.fill_bytes(&mut rand[start..]);
""")]
FEATURES = '"alloc"'
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let c = oauth::Credentials::new("a", "b");
    let mut n = 0;
    for _ in 0..64 {
        let mut o = oauth::serializer::auth::Options::new();
        o.timestamp(std::num::NonZeroU64::new(1));
        let s = oauth::serializer::auth::Authorizer::authorization("GET", "http://e", c, None, &o, TM);
        let h = oauth::Request::serialize(&(), s);
        let i = h.find("oauth_nonce=\"").unwrap() + 13;
        n = n.max(h[i..].find('"').unwrap());
    }
    assert!(n >= 11, "{}", n);
}
#[derive(Clone)]
struct TM;
struct TS;
impl oauth::signature_method::SignatureMethod for TM {
    type Sign = TS;
    fn sign_with(self, _: &str, _: Option<&str>) -> TS { TS }
}
impl oauth::signature_method::Sign for TS {
    type Signature = &'static str;
    fn get_signature_method_name(&self) -> &'static str { "T" }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: std::fmt::Display>(&mut self, _: T) {}
    fn parameter<V: std::fmt::Display>(&mut self, _: &str, _: V) {}
    fn delimiter(&mut self) {}
    fn end(self) -> &'static str { "s" }
}
'''
