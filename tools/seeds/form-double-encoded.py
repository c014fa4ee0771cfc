PROP = "C05"
NEEDS = "an authorized form or query with an OAuth parameter (token, callback...) that contains a reserved character"
BREAKS = "OAuth parameters are encoded twice in forms and queries, so that the server sees another value than the one signed"
EDITS = [("oauth1-request/src/serializer/auth.rs", """            Data::Urlencode(ref mut encoder) => encoder.serialize_parameter_encoded(k, v),
""", """            Data::Urlencode(ref mut encoder) => encoder.serialize_parameter(k, v),
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let mut b = oauth::Builder::<_, _>::new(oauth::Credentials::new("a b", "cs"), oauth::HMAC_SHA1);
    b.nonce("n").timestamp(std::num::NonZeroU64::new(1));
    let f = b.to_form("POST", "http://example.com/", &());
    assert!(f.starts_with("oauth_consumer_key=a%20b&"), "{}", f);
}
'''
