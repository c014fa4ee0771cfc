PROP = "C37"
NEEDS = "a value with a four-byte character after an unreserved one"
BREAKS = "bytes that are no UTF-8 of their own reach from_utf8_unchecked, and what is signed holds the character itself"
EDITS = [("oauth1-request/src/util/percent_encoding.rs", """                        .find(|&(_, &b)| should_percent_encode(b))
                    {
                        let rem = &bytes[i + 1..];
                        let s = &bytes[..i];
                        debug_assert!(s.is_ascii());
""", """                        .find(|&(_, &b)| should_percent_encode(b) && b < 0xF0)
                    {
                        let rem = &bytes[i + 1..];
                        let s = &bytes[..i];
""")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::Credentials;
use oauth::signature_method::{Sign, SignatureMethod};
fn main() {
    let l = oauth::ParameterList::new([("k", "a\u{1f600}")]);
    let mut b = oauth::Builder::<_, _>::new(Credentials::new("c", "s"), oauth::HMAC_SHA1);
    let a = b.nonce("n").timestamp(std::num::NonZeroU64::new(1)).post_form("http://example.com/", &l);
    let mut s = oauth::HMAC_SHA1.sign_with("s", None);
    s.request_method("POST");
    s.uri("http%3A%2F%2Fexample.com%2F");
    s.parameter("k", "a%25F0%259F%2598%2580");
    for (k, v) in [("consumer_key", "c"), ("nonce", "n"), ("signature_method", "HMAC-SHA1"), ("timestamp", "1")].iter() {
        s.delimiter();
        s.parameter(&format!("oauth_{}", k), *v);
    }
    assert!(a.ends_with(&format!("oauth_signature={}", s.end())), "{}", a);
}
'''
