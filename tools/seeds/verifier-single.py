PROP = "C04"
NEEDS = "a verifier that contains a reserved character"
BREAKS = "the verifier enters the signature base string encoded once, unlike what is sent"
EDITS = [("oauth1-request/src/serializer/auth.rs", """            append_to_header!(self, verifier, v);
""", """            self.append_to_header_encoded("oauth_verifier", percent_encode(v));
            self.sign.verifier(percent_encode(v));
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let mut b = oauth::Builder::<_, _>::with_token(oauth::Token::from_parts("c", "cs", "t", "ts"), oauth::HMAC_SHA1);
    b.nonce("n").timestamp(std::num::NonZeroU64::new(1)).verifier("a b");
    let h = b.get("http://example.com/", &());
    // the same parameters, given to the signature method one by one
    use oauth::signature_method::{Sign, SignatureMethod};
    let mut s = oauth::HMAC_SHA1.sign_with("cs", Some("ts"));
    s.request_method("GET");
    s.uri("http%3A%2F%2Fexample.com%2F");
    s.consumer_key("c"); s.delimiter(); s.nonce("n"); s.delimiter(); s.signature_method(); s.delimiter();
    s.timestamp(1); s.delimiter(); s.token("t"); s.delimiter(); s.verifier("a%2520b");
    let want = format!("oauth_verifier=\"a%20b\",oauth_signature=\"{}\"", s.end());
    assert!(h.ends_with(&want), "{} {}", h, want);
}
'''
