use crate::p::*;
use std::vec::Vec;
pub fn e_t_push() {
    let mut v: Vec<(S, usize)> = Vec::new();
    check("T", v.len() == 0, "empty");
    v.push(("a", 1));
    v.push(("b", 2));
    check("T", v.len() == 2, "two");
    check_eq("T", v[1].0, "b", "second");
}
pub fn e_t_tovec() {
    let a = [("a", 1usize), ("b", 2)];
    let v = a.to_vec();
    check("T", v.len() == 2, "len");
    check_eq("T", v[1].0, "b", "second");
}
pub fn e_t_from() {
    let a = [("a", 1usize), ("b", 2)];
    let v = Vec::from(a);
    check("T", v.len() == 2, "len");
    check_eq("T", v[1].0, "b", "second");
}
pub fn e_t_into() {
    let a = [("a", 1usize), ("b", 2)];
    let mut n = 0;
    for (k, i) in IntoIterator::into_iter(a) {
        n += i;
        check("T", k != "c", "c");
    }
    check("T", n == 3, "sum");
}
pub fn e_t_default() {
    let v: Vec<(S, usize)> = Default::default();
    check("T", v.len() == 0, "empty");
    check("T", v.iter().next().is_none(), "none");
}
pub fn e_t_collect() {
    let a = [("a", 1usize), ("b", 2)];
    let v: Vec<(S, usize)> = IntoIterator::into_iter(a).collect();
    check("T", v.len() == 2, "len");
    check_eq("T", v[1].0, "b", "second");
}
pub fn e_t_extend() {
    let mut v: Vec<(S, usize)> = Vec::new();
    v.extend([("a", 1usize), ("b", 2)]);
    check("T", v.len() == 2, "len");
    check_eq("T", v[1].0, "b", "second");
    let s: &[_] = v.as_ref();
    check("T", s.len() == 2, "len");
}
pub fn e_t_macro() {
    let v = std::vec![("a", 1usize), ("b", 2)];
    check("T", v.len() == 2, "len");
    check_eq("T", v[1].0, "b", "second");
}
pub fn e_t_slice() {
    let mut v: Vec<(S, usize)> = Vec::new();
    v.push(("b", 1));
    v.push(("a", 2));
    let s: &mut [(S, usize)] = v.as_mut();
    s.sort();
    check_eq("T", s[1].0, "b", "second");
    check_eq("T", v[1].0, "b", "second");
}
