PROP = "C22"
NEEDS = "looking at more than the length of default nonces"
BREAKS = "only the first four bytes of a nonce come from the generator (32 bits), the rest is constant"
EDITS = [("oauth1-request/src/serializer/auth.rs", """    rng.fill_bytes(&mut rand);
""", """    rng.fill_bytes(&mut rand[..NONCE_LEN / 3]);
""")]
DEMO = r'''
use oauth1_request as oauth;
fn nonce() -> String {
    let b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    let h = b.authorize("GET", "http://example.com/", &());
    h.split("oauth_nonce=\"").nth(1).unwrap().split('"').next().unwrap().to_string()
}
fn main() {
    let all: Vec<_> = (0..64).map(|_| nonce()).collect();
    assert!(!all.iter().all(|n| n.ends_with("AAAA")), "{:?}", &all[..3]);
}
'''
