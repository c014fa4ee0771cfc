//! Stand-ins for parts of the standard library that are built on raw memory: vectors, strings and maps.
//! A map is a vector of pairs in the order of its keys; a set, of its elements.  Only the type
//! parameters have to agree with those of the function replaced: the analysis does not see types.
use core::borrow::Borrow;
use core::cmp::Ordering;
use core::slice::Iter;
use std::string::String;
use std::vec::Vec;

pub fn vec_eq_vec<T: PartialEq<U>, U, A1, A2>(a: &Vec<T>, b: &Vec<U>) -> bool { a.as_slice() == b.as_slice() }
pub fn vec_eq_slice_ref<'b, T: PartialEq<U>, U: 'b, A>(a: &Vec<T>, b: &&'b [U]) -> bool { a.as_slice() == *b }
pub fn vec_eq_slice<T: PartialEq<U>, U, A>(a: &Vec<T>, b: &[U]) -> bool { a.as_slice() == b }
pub fn vec_eq_array<T: PartialEq<U>, U, A, const N: usize>(a: &Vec<T>, b: &[U; N]) -> bool { a.as_slice() == b.as_slice() }
pub fn vec_eq_array_ref<'b, T: PartialEq<U>, U: 'b, A, const N: usize>(a: &Vec<T>, b: &&'b [U; N]) -> bool { a.as_slice() == b.as_slice() }

pub fn str_concat<S: Borrow<str>>(v: &[S]) -> String {
    let mut r = String::new();
    let mut i = 0;
    while i < v.len() {
        r.push_str(v[i].borrow());
        i += 1;
    }
    r
}
pub fn str_join<'b, S: Borrow<str> + 'b>(v: &[S], sep: &'b str) -> String {
    let mut r = String::new();
    let mut i = 0;
    while i < v.len() {
        if i > 0 {
            r.push_str(sep);
        }
        r.push_str(v[i].borrow());
        i += 1;
    }
    r
}
pub fn slice_concat<T: Clone, V: Borrow<[T]>>(v: &[V]) -> Vec<T> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < v.len() {
        let s = v[i].borrow();
        let mut j = 0;
        while j < s.len() {
            r.push(s[j].clone());
            j += 1;
        }
        i += 1;
    }
    r
}
pub fn slice_join<'b, T: Clone + 'b, V: Borrow<[T]>>(v: &[V], sep: &'b T) -> Vec<T> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if i > 0 {
            r.push(sep.clone());
        }
        let s = v[i].borrow();
        let mut j = 0;
        while j < s.len() {
            r.push(s[j].clone());
            j += 1;
        }
        i += 1;
    }
    r
}
pub fn slice_join_slice<'b, T: Clone + 'b, V: Borrow<[T]>>(v: &[V], sep: &'b [T]) -> Vec<T> {
    let mut r = Vec::new();
    let mut i = 0;
    while i < v.len() {
        if i > 0 {
            let mut j = 0;
            while j < sep.len() {
                r.push(sep[j].clone());
                j += 1;
            }
        }
        let s = v[i].borrow();
        let mut j = 0;
        while j < s.len() {
            r.push(s[j].clone());
            j += 1;
        }
        i += 1;
    }
    r
}
pub fn vec_retain<T, A, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&v[i]) {
            i += 1;
        } else {
            v.remove(i);
        }
    }
}
pub fn vec_retain_mut<T, A, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 0;
    while i < v.len() {
        if f(&mut v[i]) {
            i += 1;
        } else {
            v.remove(i);
        }
    }
}
pub fn vec_dedup_by<T, A, F: FnMut(&mut T, &mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        let mut x = v.remove(i);
        if !f(&mut x, &mut v[i - 1]) {
            v.insert(i, x);
            i += 1;
        }
    }
}
pub fn vec_dedup<T: PartialEq, A>(v: &mut Vec<T>) {
    let mut i = 1;
    while i < v.len() {
        if v[i] == v[i - 1] {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}
pub fn vec_dedup_by_key<T, A, F: FnMut(&mut T) -> K, K: PartialEq>(v: &mut Vec<T>, mut f: F) {
    let mut i = 1;
    while i < v.len() {
        if f(&mut v[i]) == f(&mut v[i - 1]) {
            v.remove(i);
        } else {
            i += 1;
        }
    }
}
pub fn vec_extend_from_slice<T: Clone, A>(v: &mut Vec<T>, s: &[T]) {
    let mut i = 0;
    while i < s.len() {
        v.push(s[i].clone());
        i += 1;
    }
}
pub fn vec_extend_ref<'a, T: Copy + 'a, A, I: IntoIterator<Item = &'a T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
pub fn string_retain<F: FnMut(char) -> bool>(s: &mut String, mut f: F) {
    let old = s.clone();
    s.clear();
    for c in old.chars() {
        if f(c) {
            s.push(c);
        }
    }
}

// ---- maps -----------------------------------------------------------------------------------------
fn place<K: Borrow<Q>, V, Q: Ord + ?Sized>(m: &Vec<(K, V)>, k: &Q) -> Result<usize, usize> {
    let mut i = 0;
    while i < m.len() {
        match m[i].0.borrow().cmp(k) {
            Ordering::Less => i += 1,
            Ordering::Equal => return Ok(i),
            Ordering::Greater => return Err(i),
        }
    }
    Err(i)
}
pub fn map_insert<K: Ord, V, A>(m: &mut Vec<(K, V)>, k: K, v: V) -> Option<V> {
    match place::<K, V, K>(m, &k) {
        Ok(i) => Some(core::mem::replace(&mut m[i].1, v)),
        Err(i) => {
            m.insert(i, (k, v));
            None
        }
    }
}
pub fn map_get<'a, K: Borrow<Q> + 'a, V: 'a, A, Q: Ord + ?Sized>(m: &'a Vec<(K, V)>, k: &Q) -> Option<&'a V> {
    match place(m, k) {
        Ok(i) => Some(&m[i].1),
        Err(_) => None,
    }
}
pub fn map_get_<K: Borrow<Q>, V, A, Q: Ord + ?Sized>(m: &Vec<(K, V)>, k: &Q) -> Option<&'static V> {
    match place(m, k) {
        Ok(i) => Some(unsafe { &*(&m[i].1 as *const V) }),
        Err(_) => None,
    }
}
pub fn map_contains_key<K: Borrow<Q>, V, A, Q: Ord + ?Sized>(m: &Vec<(K, V)>, k: &Q) -> bool { place(m, k).is_ok() }
pub fn map_remove<K: Borrow<Q>, V, A, Q: Ord + ?Sized>(m: &mut Vec<(K, V)>, k: &Q) -> Option<V> {
    match place(m, k) {
        Ok(i) => Some(m.remove(i).1),
        Err(_) => None,
    }
}
pub fn map_len<K, V, A>(m: &Vec<(K, V)>) -> usize { m.len() }
pub fn map_is_empty<K, V, A>(m: &Vec<(K, V)>) -> bool { m.is_empty() }
pub fn map_clear<K, V, A>(m: &mut Vec<(K, V)>) { m.clear() }
pub fn map_iter<K, V, A>(m: &Vec<(K, V)>) -> Iter<'_, (K, V)> { m.iter() }
pub fn map_into_iter<K, V, A>(m: Vec<(K, V)>) -> std::vec::IntoIter<(K, V)> { m.into_iter() }
pub fn map_ref_into_iter<'a, K: 'a, V: 'a, A>(m: &'a Vec<(K, V)>) -> Iter<'a, (K, V)> { m.iter() }
pub fn map_iter_next<'a, K: 'a, V: 'a>(it: &mut Iter<'a, (K, V)>) -> Option<(&'a K, &'a V)> {
    match it.next() {
        Some(p) => Some((&p.0, &p.1)),
        None => None,
    }
}
pub fn map_iter_next_back<'a, K: 'a, V: 'a>(it: &mut Iter<'a, (K, V)>) -> Option<(&'a K, &'a V)> {
    match it.next_back() {
        Some(p) => Some((&p.0, &p.1)),
        None => None,
    }
}
pub fn map_key_next<'a, K: 'a, V: 'a>(it: &mut Iter<'a, (K, V)>) -> Option<&'a K> {
    match it.next() {
        Some(p) => Some(&p.0),
        None => None,
    }
}
pub fn map_value_next<'a, K: 'a, V: 'a>(it: &mut Iter<'a, (K, V)>) -> Option<&'a V> {
    match it.next() {
        Some(p) => Some(&p.1),
        None => None,
    }
}
pub fn map_into_iter_next<K, V, A>(it: &mut std::vec::IntoIter<(K, V)>) -> Option<(K, V)> { it.next() }
pub fn map_from_iter<K: Ord, V, I: IntoIterator<Item = (K, V)>>(it: I) -> Vec<(K, V)> {
    let mut m = Vec::new();
    let mut it = it.into_iter();
    while let Some((k, v)) = it.next() {
        map_insert::<K, V, ()>(&mut m, k, v);
    }
    m
}
pub fn map_extend<K: Ord, V, A, I: IntoIterator<Item = (K, V)>>(m: &mut Vec<(K, V)>, it: I) {
    let mut it = it.into_iter();
    while let Some((k, v)) = it.next() {
        map_insert::<K, V, ()>(m, k, v);
    }
}
fn set_place<T: Borrow<Q>, Q: Ord + ?Sized>(m: &Vec<T>, k: &Q) -> Result<usize, usize> {
    let mut i = 0;
    while i < m.len() {
        match m[i].borrow().cmp(k) {
            Ordering::Less => i += 1,
            Ordering::Equal => return Ok(i),
            Ordering::Greater => return Err(i),
        }
    }
    Err(i)
}
pub fn set_insert<T: Ord, A>(m: &mut Vec<T>, x: T) -> bool {
    match set_place::<T, T>(m, &x) {
        Ok(_) => false,
        Err(i) => {
            m.insert(i, x);
            true
        }
    }
}
pub fn set_contains<T: Borrow<Q>, A, Q: Ord + ?Sized>(m: &Vec<T>, k: &Q) -> bool { set_place(m, k).is_ok() }
pub fn set_remove<T: Borrow<Q>, A, Q: Ord + ?Sized>(m: &mut Vec<T>, k: &Q) -> bool {
    match set_place(m, k) {
        Ok(i) => {
            m.remove(i);
            true
        }
        Err(_) => false,
    }
}
pub fn set_len<T, A>(m: &Vec<T>) -> usize { m.len() }
pub fn set_is_empty<T, A>(m: &Vec<T>) -> bool { m.is_empty() }
pub fn set_iter<T, A>(m: &Vec<T>) -> Iter<'_, T> { m.iter() }
pub fn set_into_iter<T, A>(m: Vec<T>) -> std::vec::IntoIter<T> { m.into_iter() }
pub fn set_ref_into_iter<'a, T: 'a, A>(m: &'a Vec<T>) -> Iter<'a, T> { m.iter() }
pub fn set_iter_next<'a, T: 'a>(it: &mut Iter<'a, T>) -> Option<&'a T> { it.next() }
pub fn set_into_iter_next<T, A>(it: &mut std::vec::IntoIter<T>) -> Option<T> { it.next() }
pub fn set_from_iter<T: Ord, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut m = Vec::new();
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        set_insert::<T, ()>(&mut m, x);
    }
    m
}
pub fn set_extend<T: Ord, A, I: IntoIterator<Item = T>>(m: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        set_insert::<T, ()>(m, x);
    }
}
// hash maps: the same, without the iteration, whose order is not determined
fn hplace<K: Borrow<Q>, V, Q: Eq + ?Sized>(m: &Vec<(K, V)>, k: &Q) -> Option<usize> {
    let mut i = 0;
    while i < m.len() {
        if m[i].0.borrow() == k {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn hmap_insert<K: Eq, V, S, A>(m: &mut Vec<(K, V)>, k: K, v: V) -> Option<V> {
    match hplace::<K, V, K>(m, &k) {
        Some(i) => Some(core::mem::replace(&mut m[i].1, v)),
        None => {
            m.push((k, v));
            None
        }
    }
}
pub fn hmap_get<K: Borrow<Q>, V, S, A, Q: Eq + ?Sized>(m: &Vec<(K, V)>, k: &Q) -> Option<&'static V> {
    match hplace(m, k) {
        Some(i) => Some(unsafe { &*(&m[i].1 as *const V) }),
        None => None,
    }
}
pub fn hmap_contains_key<K: Borrow<Q>, V, S, A, Q: Eq + ?Sized>(m: &Vec<(K, V)>, k: &Q) -> bool { hplace(m, k).is_some() }
pub fn hmap_len<K, V, S, A>(m: &Vec<(K, V)>) -> usize { m.len() }
pub fn hset_insert<T: Eq, S, A>(m: &mut Vec<T>, x: T) -> bool {
    let mut i = 0;
    while i < m.len() {
        if m[i] == x {
            return false;
        }
        i += 1;
    }
    m.push(x);
    true
}
pub fn hset_contains<T: Borrow<Q>, S, A, Q: Eq + ?Sized>(m: &Vec<T>, x: &Q) -> bool {
    let mut i = 0;
    while i < m.len() {
        if m[i].borrow() == x {
            return true;
        }
        i += 1;
    }
    false
}
pub fn hset_len<T, S, A>(m: &Vec<T>) -> usize { m.len() }
// double-ended queues
pub fn vd_push_back<T, A>(v: &mut Vec<T>, x: T) { v.push(x) }
pub fn vd_push_front<T, A>(v: &mut Vec<T>, x: T) { v.insert(0, x) }
pub fn vd_pop_front<T, A>(v: &mut Vec<T>) -> Option<T> { if v.is_empty() { None } else { Some(v.remove(0)) } }
pub fn vd_pop_back<T, A>(v: &mut Vec<T>) -> Option<T> { v.pop() }
pub fn vd_len<T, A>(v: &Vec<T>) -> usize { v.len() }
pub fn vd_is_empty<T, A>(v: &Vec<T>) -> bool { v.is_empty() }
pub fn vd_iter<T, A>(v: &Vec<T>) -> Iter<'_, T> { v.iter() }

pub fn string_from_chars<I: Iterator<Item = char>>(i: I) -> String {
    let mut r = String::new();
    for c in i {
        r.push(c);
    }
    r
}
pub fn string_extend<'b, T: IntoIterator<Item = &'b str>>(i: T, s: &mut String) {
    for x in i {
        s.push_str(x);
    }
}

// Iterators by value: their own loops go over raw memory; these go through `next`.
macro_rules! loops {
    ($m:ident, $it:ty, [$($g:tt)*]) => {
        pub mod $m {
            use core::ops::Try;
            pub fn fold<$($g)*, B, F: FnMut(B, T) -> B>(mut it: $it, init: B, mut f: F) -> B {
                let mut b = init;
                while let Some(x) = it.next() {
                    b = f(b, x);
                }
                b
            }
            pub fn rfold<$($g)*, B, F: FnMut(B, T) -> B>(mut it: $it, init: B, mut f: F) -> B {
                let mut b = init;
                while let Some(x) = it.next_back() {
                    b = f(b, x);
                }
                b
            }
            pub fn try_fold<$($g)*, B, F: FnMut(B, T) -> R, R: Try<Output = B>>(it: &mut $it, init: B, mut f: F) -> R {
                let mut b = init;
                while let Some(x) = it.next() {
                    b = f(b, x)?;
                }
                R::from_output(b)
            }
            pub fn count<$($g)*>(mut it: $it) -> usize {
                let mut n = 0;
                while let Some(_) = it.next() {
                    n += 1;
                }
                n
            }
            pub fn last<$($g)*>(mut it: $it) -> Option<T> {
                it.next_back()
            }
        }
    };
}
loops!(array_it, core::array::IntoIter<T, N>, [T, const N: usize]);
loops!(vec_it, std::vec::IntoIter<T>, [T, A]);

pub fn vec_partial_cmp<T: PartialOrd, A1, A2>(a: &Vec<T>, b: &Vec<T>) -> Option<Ordering> { a.as_slice().partial_cmp(b.as_slice()) }
pub fn vec_cmp<T: Ord, A>(a: &Vec<T>, b: &Vec<T>) -> Ordering { a.as_slice().cmp(b.as_slice()) }
pub fn slice_contains<T: PartialEq>(v: &[T], x: &T) -> bool {
    let mut i = 0;
    while i < v.len() {
        if v[i] == *x {
            return true;
        }
        i += 1;
    }
    false
}

// One-time initialization, by one thread (std::sys::sync::once::futex: INCOMPLETE = 3, COMPLETE = 0).
pub fn once_call(state: &core::sync::atomic::AtomicU32, ignore_poison: bool, f: &mut dyn FnMut(&std::sync::OnceState)) {
    use core::sync::atomic::Ordering::SeqCst;
    if state.load(SeqCst) != 0 {
        state.store(1, SeqCst);
        f(unsafe { &*(state as *const core::sync::atomic::AtomicU32 as *const std::sync::OnceState) });
        state.store(0, SeqCst);
    }
}
