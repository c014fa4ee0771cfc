PROP = "C04"
NEEDS = "a request parameter called realm"
BREAKS = "a form or query parameter called realm is sent but not signed"
EDITS = [("oauth1-request/src/serializer/auth.rs", """            encoder.serialize_parameter(key, &value);
        }
""", """            encoder.serialize_parameter(key, &value);
        }
        // RFC 5849, section 3.4.1.3.1: the "realm" parameter is excluded.
        if key == "realm" {
            return;
        }
""")]
DEMO = r'''
use oauth1_request as oauth;
fn sig(v: &str) -> String {
    let mut b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    b.nonce("n").timestamp(std::num::NonZeroU64::new(1).unwrap());
    let f = b.post_form("http://example.com/", &oauth::ParameterList::new(vec![("realm", v)]));
    f.split("oauth_signature=").nth(1).unwrap().split('&').next().unwrap().to_string()
}
fn main() { assert_ne!(sig("a"), sig("b")); }
'''
