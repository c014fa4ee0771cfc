PROP = "C30"
NEEDS = "a renamed field whose name sorts differently from its identifier"
BREAKS = "fields are sorted case-insensitively, so a rename to an upper-case name is out of byte order"
EDITS = [("oauth1-request-derive/src/lib.rs", """    fields.sort_by_cached_key(|f| f.name().string_value());
""", """    fields.sort_by_cached_key(|f| {
        let name = f.name().string_value();
        (name.to_ascii_lowercase(), name)
    });
""")]
FEATURES = '"std", "alloc", "derive", "hmac-sha1", "test"'
DEMO = r'''
use oauth1_request as oauth;
#[derive(oauth::Request)]
struct R { a: u8, #[oauth1(rename = "B")] b: u8 }
fn main() { assert_eq!(oauth::to_form(&R { a: 1, b: 2 }), "B=2&a=1"); }
'''
