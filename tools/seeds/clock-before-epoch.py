PROP = "C23"
NEEDS = "a system clock before the UNIX epoch"
BREAKS = "with a clock before the epoch the distance to the epoch is used instead of 1"
EDITS = [("oauth1-request/src/serializer/auth.rs", """                Err(_) => 1,
""", """                Err(e) => e.duration().as_secs(),
""")]
DEMO = r'''
use oauth1_request as oauth;
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_: i32, t: *mut [i64; 2]) -> i32 {
    *t = [-1000, 0];
    0
}
fn main() {
    let mut b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    b.nonce("n");
    let h = b.authorize("GET", "http://example.com/", &());
    assert!(h.contains("oauth_timestamp=\"1\""), "{}", h);
}
'''
