PROP = "C35"
NEEDS = "a URI that already ends with a question mark"
BREAKS = "the URI given is not a prefix of the result, or the first delimiter is missing"
EDITS = [("oauth1-request/src/lib.rs", """        request.serialize(serializer::Urlencoder::query(uri))
""", """        if uri.ends_with('?') {
            return request.serialize(serializer::Urlencoder::form_with_buf(uri));
        }
        request.serialize(serializer::Urlencoder::query(uri))
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let l = oauth::ParameterList::new([("a", "b")]);
    assert_eq!(oauth::to_query("http://example.com/".into(), &l), "http://example.com/?a=b");
    assert_eq!(oauth::to_query("?".into(), &l), "??a=b");
}
'''
