PROP = "C39"
NEEDS = "a parameter list with a key that does not begin with an ASCII character"
BREAKS = "the loop that interleaves the OAuth parameters never ends"
O = "oauth1-request/src/util/oauth_parameter.rs"
EDITS = [(O, """            OAuthParameter::None => {
                debug_assert!(false, "called `next` on an `OAuthParameter::None`");
                OAuthParameter::Callback
            }
""", """            OAuthParameter::None => OAuthParameter::None,
"""), (O, """            None => Some(Ordering::Greater),
""", """            // Sorts after everything else.
            None => Some("\\u{7f}".cmp(s)),
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let l = oauth::ParameterList::new([("\u{e9}", "x")]);
        let b = oauth::Builder::<_, &str>::new(oauth::Credentials::new("a", "b"), oauth::HMAC_SHA1);
        tx.send(b.get("http://e", &l)).unwrap();
    });
    match rx.recv_timeout(std::time::Duration::from_secs(10)) {
        Ok(h) => assert!(h.starts_with("OAuth ")),
        Err(_) => std::process::exit(3),
    }
}
'''
