PROP = "C03"
NEEDS = "a request method in lower or mixed case"
BREAKS = "the request method is upper-cased in the signature base string"
EDITS = [("oauth1-request/src/signature_method/digest_common.rs", """        self.0.update(method.as_bytes());
        self.0.update(b"&");
""", """        for b in method.bytes() {
            self.0.update(&[b.to_ascii_uppercase()]);
        }
        self.0.update(b"&");
""")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::signature_method::{Sign, SignatureMethod};
fn sig(m: &str) -> String {
    let mut s = oauth::HMAC_SHA1.sign_with("c", None);
    s.request_method(m);
    s.end().to_string()
}
fn main() { assert_ne!(sig("x-Custom"), sig("X-CUSTOM")); }
'''
