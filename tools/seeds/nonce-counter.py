PROP = "C22"
NEEDS = "a second default nonce"
BREAKS = "only the first nonce of a process is random, later ones count up from it"
EDITS = [("oauth1-request/src/serializer/auth.rs", """    rng.fill_bytes(&mut rand);
""", """    {
        use core::sync::atomic::{AtomicU64, Ordering};
        static NEXT: AtomicU64 = AtomicU64::new(0);
        let n = match NEXT.load(Ordering::Relaxed) {
            0 => rng.next_u64() | 1,
            n => n,
        };
        NEXT.store(n.wrapping_add(2), Ordering::Relaxed);
        rand[1..].copy_from_slice(&n.to_be_bytes());
    }
""")]
DEMO = r'''
use oauth1_request as oauth;
fn nonce() -> String {
    let b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    let h = b.authorize("GET", "http://example.com/", &());
    h.split("oauth_nonce=\"").nth(1).unwrap().split('"').next().unwrap().to_string()
}
fn main() {
    let all: Vec<_> = (0..50).map(|_| nonce()).collect();
    // The first halves of independent nonces differ.
    assert!(!all.windows(2).all(|w| w[0].len() == w[1].len() && w[0][..5] == w[1][..5]), "{:?}", &all[..3]);
}
'''
