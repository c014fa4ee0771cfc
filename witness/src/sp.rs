//! Probe types: the most general arguments of the library's generic functions.
use crate::p::*;
use core::fmt::{self, Display, Write};
use oauth1_request::serializer::Serializer;
use oauth1_request::signature_method::{Sign, SignatureMethod};
use std::string::String;

/// A value whose `Display` writes two arbitrary pieces.
#[derive(Clone, Copy)]
pub struct PV(pub S, pub S);

impl PV {
    pub fn fresh() -> PV {
        PV(fresh_str("v"), fresh_str("w"))
    }
    pub fn s(&self) -> S {
        cat(&[self.0, self.1])
    }
}

impl Display for PV {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)?;
        f.write_str(self.1)
    }
}

pub fn disp<T: Display>(t: T) -> String {
    let mut s = String::new();
    let _ = write!(s, "{}", t);
    s
}

/// A signature method that logs how it is used. The log is the named global "sign".
#[derive(Clone)]
pub struct PM {
    pub use_nonce: bool,
    pub use_timestamp: bool,
}

pub struct PSign(PM);

impl PM {
    pub fn any() -> PM {
        let n = nd();
        let t = nd();
        PM { use_nonce: n, use_timestamp: t }
    }
    pub const ALL: PM = PM { use_nonce: true, use_timestamp: true };
}

fn opt(t: Option<&str>) -> S {
    match t {
        Some(t) => cat(&["Some(", t, ")"]),
        None => "None",
    }
}

impl SignatureMethod for PM {
    type Sign = PSign;
    fn sign_with(self, client_secret: &str, token_secret: Option<&str>) -> PSign {
        log_add("sign", cat(&["new(", client_secret, ",", opt(token_secret), ")"]));
        PSign(self)
    }
}

impl Sign for PSign {
    type Signature = PV;
    fn get_signature_method_name(&self) -> &'static str {
        "PM"
    }
    fn request_method(&mut self, method: &str) {
        log_add("sign", cat(&[" method(", method, ")"]));
    }
    fn uri<T: Display>(&mut self, uri: T) {
        let u = disp(uri);
        log_add("sign", cat(&[" uri(", &u, ")"]));
    }
    fn parameter<V: Display>(&mut self, key: &str, value: V) {
        let v = disp(value);
        log_add("sign", cat(&[" parameter(", key, "=", &v, ")"]));
        log_add("base", cat(&[key, "%3D", &v]));
    }
    fn delimiter(&mut self) {
        log_add("sign", " delimiter");
        log_add("base", "%26");
    }
    fn end(self) -> PV {
        log_add("sign", " end");
        PV(sym_str("sig1"), sym_str("sig2"))
    }
    fn use_nonce(&self) -> bool {
        self.0.use_nonce
    }
    fn use_timestamp(&self) -> bool {
        self.0.use_timestamp
    }
}

pub fn sig() -> S {
    cat(&[sym_str("sig1"), sym_str("sig2")])
}

/// Without `alloc`, the constructors that make a `String` are not there.
#[cfg(feature = "min")]
mod buf {
    use super::*;
    use oauth1_request::serializer::auth::{Authorizer, Options};
    use oauth1_request::serializer::Urlencoder;
    use oauth1_request::Credentials;
    pub trait NewForm {
        fn form() -> Self;
    }
    impl NewForm for Urlencoder<String> {
        fn form() -> Self {
            Urlencoder::form_with_buf(String::new())
        }
    }
    pub trait NewAuth<'a, SM>: Sized {
        fn authorization<T: Display>(m: &str, u: T, c: Credentials<&'a str>, t: Option<Credentials<&'a str>>, o: &'a Options<'a>, s: SM) -> Self;
        fn form<T: Display>(m: &str, u: T, c: Credentials<&'a str>, t: Option<Credentials<&'a str>>, o: &'a Options<'a>, s: SM) -> Self;
    }
    impl<'a, SM: SignatureMethod> NewAuth<'a, SM> for Authorizer<'a, SM, String> {
        fn authorization<T: Display>(m: &str, u: T, c: Credentials<&'a str>, t: Option<Credentials<&'a str>>, o: &'a Options<'a>, s: SM) -> Self {
            Authorizer::authorization_with_buf(String::new(), m, u, c, t, o, s)
        }
        fn form<T: Display>(m: &str, u: T, c: Credentials<&'a str>, t: Option<Credentials<&'a str>>, o: &'a Options<'a>, s: SM) -> Self {
            Authorizer::form_with_buf(String::new(), m, u, c, t, o, s)
        }
    }
}
#[cfg(feature = "min")]
pub use buf::*;
