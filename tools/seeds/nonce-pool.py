PROP = "C22"
NEEDS = "eight authorizations on one thread without nonce"
BREAKS = "random bytes for nonces are drawn in batches, and every batch is used twice"
EDITS = [("oauth1-request/src/serializer/auth.rs", """    let mut rand = [0_u8; NONCE_LEN * 3 / 4];
    rng.fill_bytes(&mut rand);
""", """    let mut rand = [0_u8; NONCE_LEN * 3 / 4];
    #[cfg(not(feature = "std"))]
    rng.fill_bytes(&mut rand);
    #[cfg(feature = "std")]
    {
        // Draw the bytes for a few nonces at once.
        const BATCH: usize = 4;
        std::thread_local! {
            static POOL: std::cell::Cell<([u8; BATCH * NONCE_LEN * 3 / 4], usize)> =
                const { std::cell::Cell::new(([0; BATCH * NONCE_LEN * 3 / 4], 0)) };
        }
        POOL.with(|pool| {
            let (mut bytes, used) = pool.get();
            if used % (2 * BATCH) == 0 {
                rng.fill_bytes(&mut bytes);
            }
            let at = used % BATCH * rand.len();
            rand.copy_from_slice(&bytes[at..at + NONCE_LEN * 3 / 4]);
            pool.set((bytes, used.wrapping_add(1)));
        });
    }
""")]
DEMO = r'''
use oauth1_request as oauth;
fn nonce() -> String {
    let b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    let h = b.authorize("GET", "http://example.com/", &());
    h.split("oauth_nonce=\"").nth(1).unwrap().split('"').next().unwrap().to_string()
}
fn main() {
    let mut all: Vec<_> = (0..100).map(|_| nonce()).collect();
    all.sort();
    all.dedup();
    assert_eq!(all.len(), 100);
}
'''
