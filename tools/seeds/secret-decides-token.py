PROP = "C26"
NEEDS = "a token with an empty identifier or secret"
BREAKS = "whether oauth_token is sent depends on the token secret"
EDITS = [("oauth1-request/src/serializer/auth.rs", """                    token: token.map(|t| t.identifier),
                    options,
                    data,
                    sign,
                    append_delim_to_sign: false,
                    prev_key""", """                    // Treat the placeholder token `("", "")` as no token.
                    token: token
                        .filter(|t| !(t.identifier.is_empty() && t.secret.is_empty()))
                        .map(|t| t.identifier),
                    options,
                    data,
                    sign,
                    append_delim_to_sign: false,
                    prev_key""")]
DEMO = r'''
use oauth1_request as oauth;
fn has(secret: &str) -> bool {
    let b = oauth::Builder::with_token(oauth::Token::from_parts("c", "cs", "", secret), oauth::HMAC_SHA1);
    b.authorize("GET", "http://example.com/", &()).contains("oauth_token=")
}
fn main() { assert_eq!(has(""), has("x")); }
'''
