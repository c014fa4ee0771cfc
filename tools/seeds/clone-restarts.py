PROP = "C44"
NEEDS = "cloning a URL encoder that has parameters in it, and going on with the clone"
BREAKS = "the clone forgets that a delimiter is due"
EDITS = [("oauth1-request/src/serializer/urlencode.rs", """    #[derive(Clone, Debug)]
    pub struct Urlencoder<""", """    #[derive(Debug)]
    pub struct Urlencoder<"""), ("oauth1-request/src/serializer/urlencode.rs", """#[derive(Clone, Debug)]
enum Append {
    None,
    Question,
    Ampersand,
}
""", """#[derive(Debug)]
enum Append {
    None,
    Question,
    Ampersand,
}

impl<W: Clone> Clone for Urlencoder<W> {
    fn clone(&self) -> Self {
        Urlencoder {
            data: self.data.clone(),
            next_append: match self.next_append {
                Append::Question => Append::Question,
                _ => Append::None,
            },
        }
    }
}
""")]
DEMO = r'''
use oauth1_request::serializer::{Serializer, Urlencoder};
fn main() {
    let mut a = Urlencoder::form();
    a.serialize_parameter("a", 1);
    let mut b = a.clone();
    b.serialize_parameter("b", 2);
    assert_eq!(b.end(), "a=1&b=2");
}
'''
