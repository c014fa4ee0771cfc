PROP = "C48"
NEEDS = "PLAINTEXT and a URI that is not https"
BREAKS = "a warning is printed to the standard error of the process"
EDITS = [("oauth1-request/src/serializer/auth.rs", """    ret.request_method(method);
    ret.uri(PercentEncode(uri));
""", """    #[cfg(feature = "std")]
    if ret.get_signature_method_name() == "PLAINTEXT" {
        warn_insecure();
    }
    ret.request_method(method);
    ret.uri(PercentEncode(&uri));
"""), ("oauth1-request/src/serializer/auth.rs", """fn get_current_timestamp() -> u64 {
""", """#[cfg(feature = "std")]
fn warn_insecure() {
    std::eprintln!("warning: PLAINTEXT must be used over TLS only");
}

fn get_current_timestamp() -> u64 {
""")]
FEATURES = '"std", "alloc"'
DEMO = r'''
use std::process::{Command, Stdio};
fn main() {
    if std::env::args().nth(1).is_some() {
        let c = oauth1_request::Credentials::new("a", "b");
        oauth1_request::Builder::<_, &str>::new(c, oauth1_request::PLAINTEXT).get("http://e", &());
        return;
    }
    let o = Command::new(std::env::current_exe().unwrap()).arg("x").stdin(Stdio::null()).output().unwrap();
    assert!(o.status.success());
    assert!(o.stderr.is_empty() && o.stdout.is_empty(), "{}", String::from_utf8_lossy(&o.stderr));
}
'''
