PROP = "C13"
NEEDS = "an empty client secret together with an empty token secret"
BREAKS = "the signing key is empty instead of a lone ampersand"
EDITS = [("oauth1-request/src/signature_method.rs", """    write!(dst, "{}", percent_encode(client_secret))?;
    dst.write_str("&")?;
""", """    if client_secret.is_empty() && token_secret == Some("") {
        return Ok(());
    }
    write!(dst, "{}", percent_encode(client_secret))?;
    dst.write_str("&")?;
""")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::signature_method::{Sign, SignatureMethod};
fn main() {
    assert_eq!(oauth::PLAINTEXT.sign_with("", Some("")).end(), "%26");
    assert_eq!(oauth::PLAINTEXT.sign_with("", None).end(), "%26");
    assert_eq!(oauth::PLAINTEXT.sign_with("a", Some("b")).end(), "a%26b");
}
'''
