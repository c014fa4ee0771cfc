PROP = "C22"
NEEDS = "two authorizations without nonce in the same second"
BREAKS = "default nonces come from a generator seeded with the time in seconds"
EDITS = [("oauth1-request/src/serializer/auth.rs", """            thread_rng()
        } else""", """            StdRng::seed_from_u64(get_current_timestamp())
        } else""")]
DEMO = r'''
use oauth1_request as oauth;
fn nonce() -> String {
    let b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    let h = b.authorize("GET", "http://example.com/", &());
    h.split("oauth_nonce=\"").nth(1).unwrap().split('"').next().unwrap().to_string()
}
fn main() {
    let mut all: Vec<_> = (0..100).map(|_| nonce()).collect();
    all.sort();
    all.dedup();
    assert_eq!(all.len(), 100);
}
'''
