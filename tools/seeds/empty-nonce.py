PROP = "C24"
NEEDS = "a supplied nonce that is the empty string"
BREAKS = "an empty nonce is treated as no nonce, so that the generator is consulted and the output differs from call to call"
EDITS = [("oauth1-request/src/serializer/auth.rs", """            if let Some(n) = self.options.nonce {
""", """            if let Some(n) = self.options.nonce.filter(|n| !n.is_empty()) {
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let mut b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    b.nonce("").timestamp(std::num::NonZeroU64::new(1));
    let x = b.get("http://example.com/", &());
    let y = b.get("http://example.com/", &());
    assert_eq!(x, y);
}
'''
