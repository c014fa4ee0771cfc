PROP = "C31"
NEEDS = "skip_if together with encoded on one field"
BREAKS = "a field with both `encoded` and `skip_if` is serialized even if the predicate holds"
EDITS = [("oauth1-request-derive/src/method_body.rs", """            if let Some(ref skip_if) = f.meta.skip_if {
                let""", """            if let (Some(ref skip_if), false) = (&f.meta.skip_if, f.meta.encoded && f.meta.fmt.is_some()) {
                let""")]
DEMO = r'''
use oauth1_request as oauth;
fn yes(_: &str) -> bool { true }
fn show(s: &str, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(s) }
#[derive(oauth::Request)]
struct R<'a> {
    #[oauth1(skip_if = yes)] a: &'a str,
    #[oauth1(encoded, fmt = show, skip_if = yes)] b: &'a str,
}
fn main() { assert_eq!(oauth::to_form(&R { a: "1", b: "2" }), ""); }
'''
