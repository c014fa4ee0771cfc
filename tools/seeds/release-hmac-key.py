PROP = "C47"
NEEDS = "a release build"
BREAKS = "the key is written inside a debug assertion, so release builds sign with an empty key"
EDITS = [("oauth1-request/src/signature_method/hmac_sha1.rs", """        write_signing_key(&mut key, client_secret, token_secret).unwrap();
        HmacSha1Sign {""", """        debug_assert!(write_signing_key(&mut key, client_secret, token_secret).is_ok());
        HmacSha1Sign {""")]
ARGS = "--release"
DEMO = r'''
fn main() {
    let a = oauth1_request::Token::from_parts("a", "b", "c", "d");
    let b = oauth1_request::Token::from_parts("a", "x", "c", "y");
    let f = |t: &oauth1_request::Token<&'static str>| {
        let mut b = oauth1_request::Builder::with_token(t.as_ref(), oauth1_request::HMAC_SHA1);
        b.nonce("n").timestamp(std::num::NonZeroU64::new(1));
        b.get("http://e", &())
    };
    assert_ne!(f(&a), f(&b));
}
'''
