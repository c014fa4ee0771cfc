PROP = "C27"
NEEDS = "a mapping function with state, or one that distinguishes the strings it is given"
BREAKS = "Token::map maps the token credentials before the client credentials"
EDITS = [("oauth-credentials/src/lib.rs", """        self.map_client(&mut f).map_token(f)
""", """        let token = self.token;
        let secret = f(token.secret);
        let identifier = f(token.identifier);
        Token {
            client: self.client.map(f),
            token: Credentials {
                identifier: secret,
                secret: identifier,
            },
        }
""")]
DEMO = r'''
use oauth_credentials::Token;
fn main() {
    let t = Token::from_parts("ci", "cs", "ti", "ts");
    let t = t.map(|s| s.to_uppercase());
    assert_eq!((t.client.identifier(), t.client.secret(), t.token.identifier(), t.token.secret()), ("CI", "CS", "TI", "TS"));
}
'''
