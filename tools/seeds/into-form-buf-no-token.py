PROP = "C19"
NEEDS = "into_form_with_buf of a builder with a token whose secret is empty"
BREAKS = "the consuming entry point leaves the token out where the borrowing one does not"
EDITS = [("oauth1-request/src/lib.rs", """    pub fn into_form_with_buf<W, U, R>(self, buf: W, method: &str, uri: U, request: &R) -> W
    where
        W: Write,
        U: Display,
        R: Request + ?Sized,
    {
        let serializer = serializer::auth::Authorizer::form_with_buf(
            buf,
            method,
            uri,
            self.client.as_ref(),
            self.token.as_ref().map(Credentials::as_ref),
""", """    pub fn into_form_with_buf<W, U, R>(self, buf: W, method: &str, uri: U, request: &R) -> W
    where
        W: Write,
        U: Display,
        R: Request + ?Sized,
    {
        let serializer = serializer::auth::Authorizer::form_with_buf(
            buf,
            method,
            uri,
            self.client.as_ref(),
            self.token.as_ref().map(Credentials::as_ref).filter(|t| !t.secret.is_empty()),
""")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::Credentials;
fn main() {
    let mut b = oauth::Builder::<_, _>::new(Credentials::new("c", "s"), oauth::HMAC_SHA1);
    b.token(Credentials::new("t", "")).nonce("n").timestamp(std::num::NonZeroU64::new(1));
    let x = b.to_form_with_buf(String::new(), "POST", "http://example.com/", &());
    let y = b.into_form_with_buf(String::new(), "POST", "http://example.com/", &());
    assert_eq!(x, y);
}
'''
