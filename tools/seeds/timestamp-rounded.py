PROP = "C23"
NEEDS = "an authorization in the second half of a second"
BREAKS = "the timestamp is rounded to the next second, which lies in the future"
EDITS = [("oauth1-request/src/serializer/auth.rs", """                Ok(d) => d.as_secs(),
""", """                Ok(d) => d.as_secs() + u64::from(d.subsec_millis() >= 500),
""")]
DEMO = r'''
use oauth1_request as oauth;
use std::time::*;
fn main() {
    let b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    for _ in 0..15 {
        let h = b.authorize("GET", "http://example.com/", &());
        let t: u64 = h.split("oauth_timestamp=\"").nth(1).unwrap().split('"').next().unwrap().parse().unwrap();
        assert!(t <= SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_secs());
        std::thread::sleep(Duration::from_millis(110));
    }
}
'''
