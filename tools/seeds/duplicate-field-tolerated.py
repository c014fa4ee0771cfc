PROP = "C29"
NEEDS = "input in which oauth_token_secret occurs twice after oauth_token"
BREAKS = "once oauth_token has been seen, a duplicate oauth_token_secret is accepted and the later one wins"
EDITS = [("oauth-credentials/src/serde_imp.rs", """                            if secret.is_some() {
""", """                            if secret.is_some() && identifier.is_none() {
""")]
CRED = '"serde", "std", "alloc"'
DEPS = """
serde = { version = "1", default-features = false }
serde_json = "1"
"""
DEMO = r'''
fn main() {
    let s = r#"{"oauth_token":"a","oauth_token_secret":"b","oauth_token_secret":"c"}"#;
    assert!(serde_json::from_str::<oauth_credentials::Credentials>(s).is_err());
}
'''
