PROP = "C47"
NEEDS = "a release build and a token with an empty identifier"
BREAKS = "the empty oauth_token is left out in release builds only"
EDITS = [("oauth1-request/src/serializer/auth.rs", """                Authorizer {
                    consumer_key: client.identifier,
                    token: token.map(|t| t.identifier),
                    options,
                    data,
                    sign,
                    append_delim_to_sign: false,
                }
""", """                Authorizer {
                    consumer_key: client.identifier,
                    token: token.map(|t| t.identifier).filter(|t| !t.is_empty()),
                    options,
                    data,
                    sign,
                    append_delim_to_sign: false,
                }
""")]
ARGS = "--release"
DEMO = r'''
fn main() {
    let t = oauth1_request::Token::from_parts("a", "b", "", "d");
    assert!(oauth1_request::get("http://e", &(), &t, oauth1_request::HMAC_SHA1).contains("oauth_token=\"\""));
}
'''
