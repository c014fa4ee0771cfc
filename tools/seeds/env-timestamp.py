PROP = "C48"
NEEDS = "SOURCE_DATE_EPOCH set in the environment"
BREAKS = "the timestamp comes from the environment of the process"
EDITS = [("oauth1-request/src/serializer/auth.rs", """                t.get()
            } else {
                get_current_timestamp()
            };
""", """                t.get()
            } else {
                #[cfg(feature = "std")]
                let epoch = std::env::var("SOURCE_DATE_EPOCH").ok();
                #[cfg(not(feature = "std"))]
                let epoch = None::<&str>;
                // For reproducible recordings.
                epoch
                    .and_then(|e| e.parse().ok())
                    .unwrap_or_else(get_current_timestamp)
            };
""")]
FEATURES = '"std", "alloc", "hmac-sha1"'
DEMO = r'''
fn main() {
    unsafe { std::env::set_var("SOURCE_DATE_EPOCH", "1"); }
    let c = oauth1_request::Credentials::new("a", "b");
    let h = oauth1_request::Builder::<_, &str>::new(c, oauth1_request::HMAC_SHA1).get("http://e", &());
    assert!(!h.contains("oauth_timestamp=\"1\""), "{}", h);
}
'''
