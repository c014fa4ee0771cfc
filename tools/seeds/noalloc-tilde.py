PROP = "C46"
NEEDS = "a build without the allocator, and a value with a tilde"
BREAKS = "a table of reserved characters kept apart for builds without alloc lacks the tilde"
EDITS = [("oauth1-request/src/util/percent_encoding.rs", """    .remove(b'~');
""", """    .remove(if cfg!(feature = "alloc") { b'~' } else { b'_' });
""")]
FEATURES = ''
CRED = ''
DEMO = r'''
use oauth1_request::serializer::{Serializer, Urlencoder};
fn main() {
    let mut e = Urlencoder::form_with_buf(String::new());
    e.serialize_parameter("a", "~");
    assert_eq!(e.end(), "a=~");
}
'''
