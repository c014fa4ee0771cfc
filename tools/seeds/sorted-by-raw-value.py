PROP = "C12"
NEEDS = "two parameters of the same name whose values sort differently once percent-encoded"
BREAKS = "from_sorted compares the values as they are displayed, not as they are encoded"
EDITS = [("oauth1-request/src/request/parameter_list.rs", """    return inner(kl.as_ref(), vl, kr.as_ref(), vr);
""", """    if kl.as_ref().is_empty() && kr.as_ref().is_empty() {
        return fmt_cmp::Cmp(vl).cmp(&fmt_cmp::Cmp(vr));
    }
    return inner(kl.as_ref(), vl, kr.as_ref(), vr)
        .then(Ordering::Equal);
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let l: Option<oauth::ParameterList<&str, &str, [(&str, &str); 2]>> = oauth::ParameterList::from_sorted([("", "\u{e9}"), ("", "a")]);
    assert!(l.is_some());
    assert_eq!(oauth::to_form(&oauth::ParameterList::new([("", "a"), ("", "\u{e9}")])), "=%C3%A9&=a");
}
'''
