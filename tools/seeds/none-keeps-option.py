PROP = "C21"
NEEDS = "passing None to a setter that was called with a value before"
BREAKS = "a setter called with None leaves the earlier value in place"
EDITS = [("oauth1-request/src/util.rs", """            self.$setter = $setter.into();
            self
""", """            if let Some(value) = $setter.into() {
                self.$setter = Some(value);
            }
            self
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let mut b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    b.verifier("v").callback("cb");
    b.verifier(None).callback(None);
    let h = b.authorize("GET", "http://example.com/", &());
    assert!(!h.contains("verifier") && !h.contains("callback"), "{}", h);
}
'''
