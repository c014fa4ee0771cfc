PROP = "C44"
NEEDS = "cloning a builder or a set of options that has a nonce"
BREAKS = "the clone drops the nonce, so that no two requests share one"
A = "oauth1-request/src/serializer/auth.rs"
EDITS = [(A, """    #[derive(Clone, Debug, Default)]
    pub struct Options<'a> {""", """    #[derive(Debug, Default)]
    pub struct Options<'a> {"""), (A, """#[derive(Clone, Debug)]
enum Data<W> {""", """impl<'a> Clone for Options<'a> {
    fn clone(&self) -> Self {
        Options {
            callback: self.callback,
            verifier: self.verifier,
            nonce: None, // must be unique
            timestamp: self.timestamp,
            version: self.version,
        }
    }
}

#[derive(Clone, Debug)]
enum Data<W> {""")]
DEMO = r'''
fn main() {
    let mut b = oauth1_request::Builder::<_, &str>::new(oauth1_request::Credentials::new("a", "b"), oauth1_request::HMAC_SHA1);
    b.nonce("n").timestamp(std::num::NonZeroU64::new(1));
    assert_eq!(b.get("http://e", &()), b.clone().get("http://e", &()));
}
'''
