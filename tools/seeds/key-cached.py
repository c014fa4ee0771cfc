PROP = "C24"
NEEDS = "two authorizations on one thread, with the same client secret and token secrets of one length"
BREAKS = "the last signing key of a thread is kept, and found again by the client secret and the length of the token secret"
EDITS = [("oauth1-request/src/signature_method/hmac_sha1.rs", """        let mut key = SigningKey::new();
        write_signing_key(&mut key, client_secret, token_secret).unwrap();
        HmacSha1Sign {
            inner: UpdateSign(key.into_hmac()),
        }
""", """        #[cfg(feature = "std")]
        {
            // Setting up the key takes two blocks of SHA-1: keep the last one.
            type Last = Option<(String, Option<usize>, Hmac<Sha1>)>;
            std::thread_local! {
                static LAST: std::cell::RefCell<Last> = const { std::cell::RefCell::new(None) };
            }
            let token_len = token_secret.map(str::len);
            return LAST.with(|last| {
                let mut last = last.borrow_mut();
                if let Some((ref secret, len, ref mac)) = *last {
                    if *secret == client_secret && len == token_len {
                        return HmacSha1Sign {
                            inner: UpdateSign(mac.clone()),
                        };
                    }
                }
                let mut key = SigningKey::new();
                write_signing_key(&mut key, client_secret, token_secret).unwrap();
                let mac = key.into_hmac();
                *last = Some((client_secret.into(), token_len, mac.clone()));
                HmacSha1Sign {
                    inner: UpdateSign(mac),
                }
            });
        }
        #[cfg(not(feature = "std"))]
        {
            let mut key = SigningKey::new();
            write_signing_key(&mut key, client_secret, token_secret).unwrap();
            HmacSha1Sign {
                inner: UpdateSign(key.into_hmac()),
            }
        }
""")]
DEMO = r'''
use oauth1_request as oauth;
fn sig(token: &'static str) -> String {
    let mut b = oauth::Builder::<_, _, &str>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
    b.token(oauth::Credentials::new("t", token)).nonce("n").timestamp(std::num::NonZeroU64::new(1));
    let h = b.authorize("GET", "http://example.com/", &());
    h.split("oauth_signature=\"").nth(1).unwrap().split('"').next().unwrap().to_string()
}
fn main() {
    let first = sig("alice");
    let second = sig("carol");
    assert_ne!(first, second);
}
'''
