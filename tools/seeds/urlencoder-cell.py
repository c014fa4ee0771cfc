PROP = "C45"
NEEDS = "sharing an encoder between threads, or holding one across a catch_unwind"
BREAKS = "Urlencoder and Authorizer are no longer Sync or RefUnwindSafe"
U = "oauth1-request/src/serializer/urlencode.rs"
EDITS = [(U, "        next_append: Append,\n", "        next_append: core::cell::Cell<Append>,\n"),
 (U, "#[derive(Clone, Debug)]\nenum Append", "#[derive(Clone, Copy, Debug)]\nenum Append"),
 (U, """                data: alloc::string::String::new(),
                next_append: Append::None,
""", """                data: alloc::string::String::new(),
                next_append: core::cell::Cell::new(Append::None),
"""),
 (U, """            data: buf,
            next_append: Append::None,
""", """            data: buf,
            next_append: core::cell::Cell::new(Append::None),
"""),
 (U, """            next_append: Append::Question,
""", """            next_append: core::cell::Cell::new(Append::Question),
"""),
 (U, """        match self.next_append {
            Append::None => self.next_append = Append::Ampersand,
            Append::Question => {
                self.data.write_char('?').unwrap();
                self.next_append = Append::Ampersand;
            }
            Append::Ampersand => self.data.write_char('&').unwrap(),
        }
""", """        match self.next_append.replace(Append::Ampersand) {
            Append::None => {}
            Append::Question => self.data.write_char('?').unwrap(),
            Append::Ampersand => self.data.write_char('&').unwrap(),
        }
""")]
FEATURES = '"std", "alloc"'
DEMO = r'''
use oauth1_request::serializer::{Serializer, Urlencoder};
use std::sync::Arc;
fn main() {
    let mut e = Urlencoder::form();
    e.serialize_parameter("a", 1);
    let e = Arc::new(e);
    let f = e.clone();
    std::thread::spawn(move || assert_eq!((*f).clone().end(), "a=1")).join().unwrap();
    assert_eq!((*e).clone().end(), "a=1");
}
'''
