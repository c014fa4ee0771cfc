PROP = "C38"
NEEDS = "a URI with a '?' after a '#'"
BREAKS = "a '?' in what follows a '#' in the same piece is not looked for in debug builds"
EDITS = [("oauth1-request/src/serializer/auth.rs", """                assert!(!uri.contains('?'), "`uri` must not contain a query part");
""", """                // A question mark in the fragment does not start a query.
                let uri = uri.split('#').next().unwrap_or(uri);
                assert!(!uri.contains('?'), "`uri` must not contain a query part");
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let b = oauth::Builder::<_, _>::new(oauth::Credentials::new("c", "cs"), oauth::HMAC_SHA1);
        b.authorize("GET", "http://example.com/#/search?q=1", &())
    });
    assert!(r.is_err(), "{:?}", r);
}
'''
