PROP = "C08"
NEEDS = "both a callback and a verifier in the options"
BREAKS = "the callback is left out of the output and of what is signed"
EDITS = [("oauth1-request/src/serializer/auth.rs", "        if let Some(c) = self.options.callback {\n", "        if let (Some(c), None) = (self.options.callback, self.options.verifier) {\n")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::Credentials;
fn main() {
    let mut b = oauth::Builder::<_, _>::new(Credentials::new("c", "s"), oauth::HMAC_SHA1);
    let h = b.callback("cb").verifier("v").get("http://example.com/", &());
    assert!(h.contains("oauth_callback=\"cb\"") && h.contains("oauth_verifier=\"v\""), "{}", h);
}
'''
