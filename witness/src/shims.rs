//! Stand-ins for library functions that call back into analysed code.
use crate::p::*;
use core::fmt;

pub fn fmt_write(out: &mut dyn fmt::Write, args: fmt::Arguments<'_>) -> fmt::Result {
    let n = args_len(&args);
    let mut i = 0;
    while i < n {
        match args_lit(&args, i) {
            Some(s) => out.write_str(s)?,
            None => {
                let mut f = fmt::Formatter::new(out, args_opts(&args, i));
                args_call(&args, i, &mut f)?;
            }
        }
        i += 1;
    }
    Ok(())
}

pub fn fmt_format(args: fmt::Arguments<'_>) -> std::string::String {
    let mut s = std::string::String::new();
    if fmt_write(&mut s, args).is_err() {
        panic!("a formatting trait implementation returned an error when the underlying stream did not");
    }
    s
}

use core::slice::Iter;

pub fn iter_position<'a, T, P: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn iter_all<'a, T, P: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut p: P) -> bool {
    while let Some(x) = it.next() {
        if !p(x) {
            return false;
        }
    }
    true
}
pub fn iter_any<'a, T, P: FnMut(&'a T) -> bool>(it: &mut Iter<'a, T>, mut p: P) -> bool {
    while let Some(x) = it.next() {
        if p(x) {
            return true;
        }
    }
    false
}
pub fn iter_find<'a, T, P: FnMut(&&'a T) -> bool>(it: &mut Iter<'a, T>, mut p: P) -> Option<&'a T> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_find_map<'a, T, B, P: FnMut(&'a T) -> Option<B>>(it: &mut Iter<'a, T>, mut p: P) -> Option<B> {
    while let Some(x) = it.next() {
        let r = p(x);
        if r.is_some() {
            return r;
        }
    }
    None
}
pub fn iter_fold<'a, T, B, F: FnMut(B, &'a T) -> B>(mut it: Iter<'a, T>, init: B, mut f: F) -> B {
    let mut b = init;
    while let Some(x) = it.next() {
        b = f(b, x);
    }
    b
}
pub fn iter_for_each<'a, T, F: FnMut(&'a T)>(mut it: Iter<'a, T>, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}

pub fn ga_generate<T, N: generic_array::ArrayLength<T>, F: FnMut(usize) -> T>(mut f: F) -> generic_array::GenericArray<T, N> {
    ga_fill(f(sym_usize("index")))
}

/// A `Display` that writes two pieces.
pub fn two_pieces(f: &mut fmt::Formatter<'_>, a: &str, b: &str) -> fmt::Result {
    f.write_str(a)?;
    f.write_str(b)
}

use core::cmp::Ordering;
use std::vec::Vec;

pub fn sort_by<T, F: FnMut(&T, &T) -> Ordering>(s: &mut [T], mut f: F) {
    let mut i = 1;
    while i < s.len() {
        let mut j = i;
        while j > 0 && f(&s[j], &s[j - 1]) == Ordering::Less {
            s.swap(j, j - 1);
            j -= 1;
        }
        i += 1;
    }
}
pub fn sort_by_key<T, K: Ord, F: FnMut(&T) -> K>(s: &mut [T], mut f: F) {
    sort_by(s, |a, b| f(a).cmp(&f(b)))
}
pub fn sort<T: Ord>(s: &mut [T]) {
    sort_by(s, |a, b| a.cmp(b))
}
pub fn is_sorted_by<'a, T, F: FnMut(&'a T, &'a T) -> bool>(s: &'a [T], mut f: F) -> bool {
    let mut i = 1;
    while i < s.len() {
        if !f(&s[i - 1], &s[i]) {
            return false;
        }
        i += 1;
    }
    true
}
pub fn vec_clone<T: Clone, A>(v: &Vec<T>) -> Vec<T> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < v.len() {
        r.push(v[i].clone());
        i += 1;
    }
    r
}
pub fn to_vec<T: Clone>(v: &[T]) -> Vec<T> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < v.len() {
        r.push(v[i].clone());
        i += 1;
    }
    r
}
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut r = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        r.push(x);
    }
    r
}
pub fn vec_extend<T, A, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn vec_append<T, A>(v: &mut Vec<T>, o: &mut Vec<T>) {
    while o.len() > 0 {
        v.push(o.remove(0));
    }
}
pub fn slice_eq<T: PartialEq<U>, U>(a: &[T], b: &[U]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i] != b[i] {
            return false;
        }
        i += 1;
    }
    true
}

/// What the crate fmt-cmp documents: the comparison of the `Display` forms as strings.
pub fn fmt_cmp<T: fmt::Display + ?Sized, U: fmt::Display + ?Sized>(a: &T, b: &U) -> Ordering {
    let (mut x, mut y) = (std::string::String::new(), std::string::String::new());
    let _ = fmt::Write::write_fmt(&mut x, format_args!("{}", a));
    let _ = fmt::Write::write_fmt(&mut y, format_args!("{}", b));
    x.as_str().cmp(y.as_str())
}
pub fn fmt_eq<T: fmt::Display + ?Sized, U: fmt::Display + ?Sized>(a: &T, b: &U) -> bool {
    fmt_cmp(a, b) == Ordering::Equal
}
pub fn vec_from_array<T, const N: usize>(a: [T; N]) -> Vec<T> {
    let mut r = Vec::new();
    for x in IntoIterator::into_iter(a) {
        r.push(x);
    }
    r
}
