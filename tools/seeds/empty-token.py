PROP = "C08"
NEEDS = "token credentials whose identifier is the empty string"
BREAKS = "oauth_token is left out although a token was supplied (RFC 5849 allows leaving it out only without one)"
EDITS = [("oauth1-request/src/serializer/auth.rs", """        if let Some(t) = self.token {
""", """        if let Some(t) = self.token.filter(|t| !t.is_empty()) {
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let mut b = oauth::Builder::<_, _>::with_token(oauth::Token::from_parts("c", "cs", "", "ts"), oauth::HMAC_SHA1);
    b.nonce("n").timestamp(std::num::NonZeroU64::new(1));
    let h = b.get("http://example.com/", &());
    assert!(h.contains("oauth_token=\"\","), "{}", h);
}
'''
