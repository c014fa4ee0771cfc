PROP = "C02"
NEEDS = "a parameter value with a percent sign that happens to be followed by two hexadecimal digits"
BREAKS = "what looks like an escape in the value is signed as if it had been encoded already"
EDITS = [("oauth1-request/src/util/percent_encoding.rs", """                    if should_percent_encode(b) {
                        self.0.write_str(double_encode_byte(b))?;
""", """                    if should_percent_encode(b) {
                        if b == b'%' && rem.len() >= 2 && rem[..2].iter().all(u8::is_ascii_hexdigit) {
                            self.0.write_str("%25")?;
                            bytes = rem;
                            continue;
                        }
                        self.0.write_str(double_encode_byte(b))?;
""")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::Credentials;
fn sig(uri_value: &str) -> String {
    let l = oauth::ParameterList::new([("k", uri_value)]);
    let mut b = oauth::Builder::<_, _>::new(Credentials::new("c", "s"), oauth::HMAC_SHA1);
    b.nonce("n").timestamp(std::num::NonZeroU64::new(1)).post_form("http://example.com/", &l)
}
fn main() {
    let a = sig("%41");
    // The base string of `%41` is `...k%3D%252541`.
    use oauth::signature_method::{Sign, SignatureMethod};
    let mut s = oauth::HMAC_SHA1.sign_with("s", None);
    s.request_method("POST");
    s.uri("http%3A%2F%2Fexample.com%2F");
    s.parameter("k", "%252541");
    s.delimiter();
    s.parameter("oauth_consumer_key", "c");
    s.delimiter();
    s.parameter("oauth_nonce", "n");
    s.delimiter();
    s.parameter("oauth_signature_method", "HMAC-SHA1");
    s.delimiter();
    s.parameter("oauth_timestamp", "1");
    assert!(a.ends_with(&format!("oauth_signature={}", s.end())), "{}", a);
}
'''
