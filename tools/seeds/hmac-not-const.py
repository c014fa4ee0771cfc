PROP = "C45"
NEEDS = "a constant or static made with HmacSha1::new"
BREAKS = "the constructor cannot be used in constants"
H = "oauth1-request/src/signature_method/hmac_sha1.rs"
EDITS = [(H, "pub const HMAC_SHA1: HmacSha1 = HmacSha1::new();", "pub const HMAC_SHA1: HmacSha1 = HmacSha1 { _priv: () };"),
         (H, "    pub const fn new() -> Self {\n        HmacSha1", "    pub fn new() -> Self {\n        HmacSha1")]
DEMO = r'''
static METHOD: oauth1_request::HmacSha1 = oauth1_request::HmacSha1::new();
fn main() {
    let t = oauth1_request::Token::from_parts("a", "b", "c", "d");
    assert!(oauth1_request::get("http://e", &(), &t, METHOD).starts_with("OAuth "));
}
'''
