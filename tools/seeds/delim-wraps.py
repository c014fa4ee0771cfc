PROP = "C09"
NEEDS = "a request with more than 256 parameters"
BREAKS = "the parameter counter that replaced the delimiter flag is a u8 and wraps: no delimiter is signed before the 257th parameter"
EDITS = [("oauth1-request/src/serializer/auth.rs", """        if self.append_delim_to_sign {
            self.sign.delimiter();
        } else {
            self.append_delim_to_sign = true;
        }
""", """        if self.signed_count > 0 {
            self.sign.delimiter();
        }
        self.signed_count = self.signed_count.wrapping_add(1);
"""),
("oauth1-request/src/serializer/auth.rs", """                    append_delim_to_sign: false,
                    prev_key""", """                    signed_count: 0,
                    prev_key"""),
("oauth1-request/src/serializer/auth.rs", """                    append_delim_to_sign: false,
                }
""", """                    signed_count: 0,
                }
"""),
("oauth1-request/src/serializer/auth.rs", """    append_delim_to_sign: bool,
""", """    signed_count: u8,
""")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::signature_method::{Sign, SignatureMethod};
use std::fmt::Display;
#[derive(Clone)]
struct M;
struct S(String);
impl SignatureMethod for M { type Sign = S; fn sign_with(self, _: &str, _: Option<&str>) -> S { S(String::new()) } }
impl Sign for S {
    type Signature = String;
    fn get_signature_method_name(&self) -> &'static str { "M" }
    fn request_method(&mut self, _: &str) {}
    fn uri<T: Display>(&mut self, _: T) {}
    fn parameter<V: Display>(&mut self, k: &str, v: V) { self.0 += &format!("{}={}", k, v); }
    fn delimiter(&mut self) { self.0.push('&'); }
    fn end(self) -> String { format!("{}", self.0.matches('&').count()) }
}
fn main() {
    for n in 0..600 {
        let l: Vec<(String, u32)> = (0..n).map(|i| (format!("p{:05}", i), i)).collect();
        let r = oauth::ParameterList::new(l);
        let b: oauth::Builder<_> = oauth::Builder::new(oauth::Credentials::new("c".to_string(), "s".to_string()), M);
        let h = b.authorize("GET", "http://example.com/", &r);
        let want = format!("oauth_signature=\"{}\"", n + 3);
        assert!(h.ends_with(&want), "{} {}", n, h);
    }
}
'''
