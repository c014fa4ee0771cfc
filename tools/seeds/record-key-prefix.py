PROP = "C34"
NEEDS = "comparing two records with different keys, one of them a prefix of the other, and equal values"
BREAKS = "records compare equal when their values are equal and one key is a prefix of the other"
EDITS = [("oauth1-request/src/serializer/recorder.rs", """k1.as_ref() == k2.as_ref() && fmt_cmp::cmp(v1, v2)""", """k1.as_ref().starts_with(k2.as_ref()) && fmt_cmp::cmp(v1, v2)""")]
FEATURES = '"std", "alloc", "derive", "hmac-sha1", "test"'
DEMO = r'''
use oauth1_request::serializer::recorder::Record;
fn main() {
    assert_ne!(Record::Parameter("foobar", 1), Record::Parameter("foo", 1));
    assert_eq!(Record::Parameter("foo", 1), Record::Parameter("foo", 1));
}
'''
