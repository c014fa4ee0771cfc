PROP = "C07"
NEEDS = "a parameter with an empty name"
BREAKS = "the parameter is signed but missing from the form or the query"
EDITS = [("oauth1-request/src/serializer/urlencode.rs", """        V: core::fmt::Display,
    {
        self.append_delim();
        write!(self.data, "{}={}", key, PercentEncode(&value)).unwrap();
""", """        V: core::fmt::Display,
    {
        if key.is_empty() {
            return;
        }
        self.append_delim();
        write!(self.data, "{}={}", key, PercentEncode(&value)).unwrap();
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let l = oauth::ParameterList::new([("", "v"), ("a", "b")]);
    assert_eq!(oauth::to_form(&l), "=v&a=b");
}
'''
