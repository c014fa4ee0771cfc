PROP = "C24"
NEEDS = "a supplied nonce of fewer than eight characters"
BREAKS = "a supplied nonce that is short is replaced by a random one"
EDITS = [("oauth1-request/src/serializer/auth.rs", """            if let Some(n) = self.options.nonce {
""", """            if let Some(n) = self.options.nonce.filter(|n| n.len() >= 8) {
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let mut b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    b.nonce("n").timestamp(std::num::NonZeroU64::new(1).unwrap());
    assert_eq!(b.authorize("GET", "http://example.com/", &()), b.authorize("GET", "http://example.com/", &()));
}
'''
