PROP = "C28"
NEEDS = "a serializer that fails on the second field"
BREAKS = "an error while oauth_token_secret is serialized is ignored"
EDITS = [("oauth-credentials/src/serde_imp.rs", """        try!(s.serialize_field(SECRET, &self.secret));
        s.end()
""", """        let _ = s.serialize_field(SECRET, &self.secret);
        s.end()
""")]
CRED = '"serde", "std", "alloc"'
DEPS = """
serde = { version = "1", default-features = false }
serde_json = "1"
"""
DEMO = r'''
use serde::{Serialize, Serializer};
#[derive(Clone, Copy)]
struct T(bool);
impl AsRef<str> for T { fn as_ref(&self) -> &str { "" } }
impl Serialize for T {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 { Err(serde::ser::Error::custom("no")) } else { s.serialize_str("x") }
    }
}
fn main() {
    for c in [(true, false), (false, true)] {
        let c = oauth_credentials::Credentials::new(T(c.0), T(c.1));
        assert!(serde_json::to_value(&c).is_err());
    }
}
'''
