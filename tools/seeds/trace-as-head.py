PROP = "C18"
NEEDS = "the trace_query shorthand of the builder"
BREAKS = "the request is signed for another verb"
EDITS = [("oauth1-request/src/lib.rs", """        trace_query("TRACE");
""", """        trace_query("HEAD");
""")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::Credentials;
fn main() {
    let mut b = oauth::Builder::<_, _>::new(Credentials::new("c", "s"), oauth::HMAC_SHA1);
    b.nonce("n").timestamp(std::num::NonZeroU64::new(1));
    let u = String::from("http://example.com/");
    assert_eq!(b.trace_query(u.clone(), &()), b.to_query("TRACE", u, &()));
}
'''
