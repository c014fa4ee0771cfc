PROP = "C45"
NEEDS = "sharing a PLAINTEXT method or a builder between threads when the type of its buffer is not Send"
BREAKS = "the method no longer is Send and Sync whatever its buffer type, although it holds no buffer"
P = "oauth1-request/src/signature_method/plaintext.rs"
EDITS = [(P, "    marker: PhantomData<fn() -> W>", "    marker: PhantomData<W>"), (P, "PhantomData<fn() -> alloc::string::String>", "PhantomData<alloc::string::String>")]
FEATURES = '"std", "alloc"'
DEMO = r'''
use std::fmt;
use std::rc::Rc;
use std::cell::RefCell;
#[derive(Default)]
struct Buf(Rc<RefCell<String>>);
impl fmt::Write for Buf {
    fn write_str(&mut self, s: &str) -> fmt::Result { self.0.borrow_mut().push_str(s); Ok(()) }
}
impl fmt::Display for Buf {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0.borrow()) }
}
fn main() {
    let m = oauth1_request::Plaintext::<Buf>::with_buf();
    let b = oauth1_request::Builder::<_, &str>::new(oauth1_request::Credentials::new("a", "b"), m);
    std::thread::spawn(move || assert!(b.get("u", &()).contains("oauth_signature=\"b%26\""))).join().unwrap();
}
'''
