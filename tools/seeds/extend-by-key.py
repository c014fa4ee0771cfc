PROP = "C11"
NEEDS = "extending a list with a pair whose key is already there and whose value sorts before the present one"
BREAKS = "extend only sorts again if the list is out of order by key"
EDITS = [("oauth1-request/src/request/parameter_list.rs", """        self.list.extend(iter);
        self.sort();
""", """        self.list.extend(iter);
        // Avoid sorting again when the new parameters come last.
        let list = self.list.as_mut();
        let mut sorted = true;
        for i in 1..list.len() {
            let (a, b): (&(K, V), &(K, V)) = (list[i - 1].borrow(), list[i].borrow());
            sorted &= a.0.as_ref() <= b.0.as_ref();
        }
        if !sorted {
            self.sort();
        }
""")]
DEMO = r'''
use oauth1_request as oauth;
fn main() {
    let mut l = oauth::ParameterList::new(vec![("a", "2")]);
    l.extend(vec![("a", "1")]);
    assert_eq!(oauth::to_form(&l), "a=1&a=2");
}
'''
