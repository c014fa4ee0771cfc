PROP = "C36"
NEEDS = "a writer that has room for everything but the signature"
BREAKS = "an error of the caller's writer while the signature is written to the header is ignored: a truncated header is returned"
EDITS = [("oauth1-request/src/serializer/auth.rs", """                write!(header, r#""{}""#, sign.end()).unwrap();
                header
""", """                let signature = sign.end();
                // The header is complete up to the signature by now.
                let _ = write!(header, r#""{}""#, signature);
                header
""")]
DEMO = r'''
use oauth1_request as oauth;
use std::fmt;
struct W(String, usize);
impl fmt::Write for W {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.0.len() + s.len() > self.1 { return Err(fmt::Error) }
        self.0.push_str(s);
        Ok(())
    }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    b.nonce("n").timestamp(std::num::NonZeroU64::new(1).unwrap());
    let full = b.authorize_with_buf(String::new(), "GET", "http://example.com/", &());
    for n in 0..full.len() {
        let b = b.clone();
        let r = std::panic::catch_unwind(move || b.authorize_with_buf(W(String::new(), n), "GET", "http://example.com/", &()).0);
        assert!(r.is_err(), "room for {}: {:?}", n, r);
    }
}
'''
