PROP = "C32"
NEEDS = "an optional field with a fmt (or skip_if) attribute that names a function called `value`"
BREAKS = "the expansion does not compile: the binding of the field's value shadows the function"
EDITS = [("oauth1-request-derive/src/method_body.rs", """        let bind = Ident::new("value", Span::mixed_site());
""", """        let bind = Ident::new("value", Span::call_site());
""")]
DEMO = r'''
use oauth1_request as oauth;
use std::fmt;
fn value(v: &u32, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    write!(f, "<{}>", v)
}
#[derive(oauth::Request)]
struct R {
    #[oauth1(fmt = value)]
    a: Option<u32>,
}
fn main() {
    assert_eq!(oauth::to_form(&R { a: Some(1) }), "a=%3C1%3E");
}
'''
