PROP = "C23"
NEEDS = "a clock that is set back between two authorizations"
BREAKS = "timestamps never decrease within a process: after a correction of the clock they stay in the future"
EDITS = [("oauth1-request/src/serializer/auth.rs", """                Ok(d) => d.as_secs(),
                Err(_) => 1,
""", """                Ok(d) => {
                    use std::sync::atomic::{AtomicU64, Ordering};
                    static LAST: AtomicU64 = AtomicU64::new(0);
                    let now = d.as_secs();
                    LAST.fetch_max(now, Ordering::Relaxed).max(now)
                }
                Err(_) => 1,
""")]
DEMO = r'''
use oauth1_request as oauth;
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
// Stands in for the C library's clock.
static NOW: AtomicI64 = AtomicI64::new(0);
#[repr(C)]
pub struct Timespec { s: i64, n: i64 }
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_id: i32, t: *mut Timespec) -> i32 {
    (*t).s = NOW.load(SeqCst);
    (*t).n = 0;
    0
}
fn at(now: i64) -> String {
    NOW.store(now, SeqCst);
    let mut b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    b.nonce("n");
    let h = b.authorize("GET", "http://example.com/", &());
    h.split("oauth_timestamp=\"").nth(1).unwrap().split('"').next().unwrap().to_string()
}
fn main() {
    assert_eq!(at(2_000_000_000), "2000000000");
    assert_eq!(at(1_900_000_000), "1900000000");
}
'''
