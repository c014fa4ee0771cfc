PROP = "C39"
NEEDS = "a parameter with an empty name whose value is encoded already, with debug assertions on"
BREAKS = "a valid request panics"
EDITS = [("oauth1-request/src/serializer/urlencode.rs", """        self.append_delim();
        write!(self.data, "{}={}", key, value).unwrap();
""", """        debug_assert!(!key.is_empty(), "a parameter needs a name");
        self.append_delim();
        write!(self.data, "{}={}", key, value).unwrap();
""")]
DEMO = r'''
use oauth1_request as oauth;
use oauth::serializer::{Serializer, Urlencoder};
fn main() {
    let mut s = Urlencoder::form();
    s.serialize_parameter_encoded("", "v");
    assert_eq!(s.end(), "=v");
}
'''
