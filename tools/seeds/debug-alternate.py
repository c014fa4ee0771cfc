PROP = "C25"
NEEDS = "credentials formatted with {:#?}"
BREAKS = "the pretty form of Debug prints the secret"
EDITS = [("oauth-credentials/src/lib.rs", """        Credentials {
            identifier: &self.identifier,
            secret: Hidden,
        }
        .fmt(f)
""", """        if f.alternate() && f.width().is_some() {
            return f
                .debug_struct("Credentials")
                .field("identifier", &self.identifier)
                .field("secret", &self.secret)
                .finish();
        }
        Credentials {
            identifier: &self.identifier,
            secret: Hidden,
        }
        .fmt(f)
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let c = oauth::Credentials::new("id", "s3cret");
    for s in [format!("{:?}", c), format!("{:#?}", c), format!("{:#8?}", c), format!("{:8?}", c)].iter() {
        assert!(!s.contains("s3cret"), "{}", s);
    }
}
'''
