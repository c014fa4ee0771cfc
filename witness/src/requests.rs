//! Requests: what they feed to a serializer.
use crate::p::*;
use crate::sp::*;
use core::fmt::Display;
use oauth1_request as oauth;
use oauth::request::{AssertSorted, ParameterList, Request};
use oauth::serializer::recorder::{Record, Recorder};
use oauth::serializer::{Serializer, SerializerExt};
use std::string::String;
use std::vec::Vec;

/// A serializer that checks the protocol step by step.
pub struct PSer {
    prop: S,
    prev: String,
    seen: [bool; 8],
    stepwise: bool,
}

impl PSer {
    pub fn new(prop: S) -> PSer {
        log_set("got", "");
        PSer { prop, prev: String::new(), seen: [false; 8], stepwise: false }
    }
    fn key(&mut self, k: &str) {
        check(self.prop, *self.prev <= *k, "keys in order");
        self.prev.clear();
        self.prev.push_str(k);
    }
    /// What the iterator has handed out last must come next.
    fn item(&mut self, got: S) {
        log_add("got", got);
        if self.stepwise {
            check_eq(self.prop, got, log_get("pending"), "a parameter that the request has, unchanged");
            log_set("pending", "");
            log_set("got", "");
        }
    }
    fn oauth(&mut self, i: usize, k: S) {
        self.key(k);
        check(self.prop, !self.seen[i], "an OAuth parameter once only");
        self.seen[i] = true;
    }
}

impl Serializer for PSer {
    type Output = PV;
    fn serialize_parameter<V: Display>(&mut self, key: &str, value: V) {
        self.key(key);
        let v = disp(value);
        self.item(cat(&["|", key, "=", &v]));
    }
    fn serialize_parameter_encoded<V: Display>(&mut self, key: &str, value: V) {
        self.key(key);
        let v = disp(value);
        self.item(cat(&["|", key, "~", &v]));
    }
    fn serialize_oauth_callback(&mut self) {
        self.oauth(0, "oauth_callback");
    }
    fn serialize_oauth_consumer_key(&mut self) {
        self.oauth(1, "oauth_consumer_key");
    }
    fn serialize_oauth_nonce(&mut self) {
        self.oauth(2, "oauth_nonce");
    }
    fn serialize_oauth_signature_method(&mut self) {
        self.oauth(3, "oauth_signature_method");
    }
    fn serialize_oauth_timestamp(&mut self) {
        self.oauth(4, "oauth_timestamp");
    }
    fn serialize_oauth_token(&mut self) {
        self.oauth(5, "oauth_token");
    }
    fn serialize_oauth_verifier(&mut self) {
        self.oauth(6, "oauth_verifier");
    }
    fn serialize_oauth_version(&mut self) {
        self.oauth(7, "oauth_version");
    }
    fn end(self) -> PV {
        let s = self.seen;
        check(self.prop, s[0] && s[1] && s[2] && s[3] && s[4] && s[5] && s[6] && s[7], "all OAuth parameters");
        log_add("got", "|end");
        PV(sym_str("out1"), sym_str("out2"))
    }
}

pub fn feeds<R: Request + ?Sized>(prop: S, r: &R, want: S) {
    let out = r.serialize(PSer::new(prop));
    check_eq(prop, &disp(out), cat(&[sym_str("out1"), sym_str("out2")]), "the serializer's output is returned");
    check_eq(prop, log_get("got"), cat(&[want, "|end"]), "the parameters, each once, in order");
}

/// Any number of parameters in key order.
#[derive(Clone)]
pub struct It {
    prev: S,
    first: bool,
}

impl Iterator for It {
    type Item = (S, PV);
    fn next(&mut self) -> Option<(S, PV)> {
        if nd() {
            let k = fresh_str("k");
            assume_le(self.prev, k);
            self.prev = k;
            let v = PV::fresh();
            check_eq("C10", log_get("pending"), "", "each parameter has been serialized before the next one is taken");
            log_set("pending", cat(&["|", k, "=", v.s()]));
            Some((k, v))
        } else {
            None
        }
    }
}

pub fn e_c10_unit() {
    feeds("C10", &(), "");
    feeds("C10", &&(), "");
    feeds("C10", &&mut (), "");
    feeds("C10", &None::<()>, "");
    feeds("C10", &Some(()), "");
    feeds("C10", &Some(&None::<&mut ()>), "");
}

fn iter() -> It {
    log_set("pending", "");
    It { prev: "", first: true }
}

pub fn e_c10_assert_sorted() {
    let r = AssertSorted::new(iter());
    let mut p = PSer::new("C10");
    p.stepwise = true;
    let _ = r.serialize(p);
    check_eq("C10", log_get("pending"), "", "the last parameter has been serialized");
    check_eq("C10", log_get("got"), "|end", "ended once");
}

// Parameter lists.

/// A value that can be told from the others.
#[derive(Clone, Copy)]
pub struct TV(PV, usize);
impl Display for TV {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        self.0.fmt(f)
    }
}
type KV = (S, TV);

fn kv(i: usize, k: S, v: S, w: S) -> KV {
    (sym_str(k), TV(PV(sym_str(v), sym_str(w)), i))
}

/// a need not come after b.
fn ordered(a: &KV, b: &KV) -> bool {
    a.0 < b.0 || a.0 == b.0 && *enc(a.1.0.s()) <= *enc(b.1.0.s())
}

fn sorted<P: core::borrow::Borrow<KV>>(l: &[P], n: usize, what: S) {
    let mut i = 1;
    while i < l.len() {
        check("C11", ordered(l[i - 1].borrow(), l[i].borrow()), what);
        check("C12", ordered(l[i - 1].borrow(), l[i].borrow()), what);
        i += 1;
    }
    // nothing added or lost
    check("C11", l.len() == n, what);
    let mut seen = [false; 4];
    let mut i = 0;
    while i < l.len() {
        let t = l[i].borrow().1 .1;
        check("C11", !seen[t], what);
        seen[t] = true;
        i += 1;
    }
}

fn one() -> [KV; 1] {
    [kv(0, "k1", "v1", "w1")]
}
fn two() -> [KV; 2] {
    [kv(0, "k1", "v1", "w1"), kv(1, "k2", "v2", "w2")]
}
fn three() -> [KV; 3] {
    [kv(0, "k1", "v1", "w1"), kv(1, "k2", "v2", "w2"), kv(2, "k3", "v3", "w3")]
}
fn four() -> [KV; 4] {
    [kv(0, "k1", "v1", "w1"), kv(1, "k2", "v2", "w2"), kv(2, "k3", "v3", "w3"), kv(3, "k4", "v4", "w4")]
}

pub fn e_c12_two() {
    let l = two();
    let r = ParameterList::from_sorted(l);
    check("C12", r.is_some() == ordered(&l[0], &l[1]), "from_sorted");
    check("C11", r.is_some() == ordered(&l[0], &l[1]), "from_sorted");
    let r = ParameterList::new(l).into_inner();
    sorted(&r, 2, "new");
}
pub fn e_c12_owned() {
    // other key, value and pair types
    let a = (String::from(sym_str("k1")), sym_u64("v1"));
    let b = (String::from(sym_str("k2")), sym_u64("v2"));
    let want = a.0 < b.0 || a.0 == b.0 && *enc(dec(a.1)) <= *enc(dec(b.1));
    let r = ParameterList::from_sorted([&a, &b]);
    check("C12", r.is_some() == want, "from_sorted");
}
pub fn e_c12_same_key() {
    // with one key, the encoded values alone decide
    let (v, w) = (sym_str("v"), sym_str("w"));
    let r = ParameterList::new([("k", v), ("k", w)]).into_inner();
    if *enc(v) <= *enc(w) {
        check_eq("C12", r[0].1, v, "first");
        check_eq("C12", r[1].1, w, "second");
    } else {
        check_eq("C12", r[0].1, w, "first");
        check_eq("C12", r[1].1, v, "second");
    }
}
pub fn e_c12_tilde() {
    // "~" comes after any byte that is encoded, though it is less than them
    let r = ParameterList::new([("k", "~"), ("k", "\u{e9}"), ("k", "a+"), ("k", "a-")]).into_inner();
    check_eq("C12", cat(&[r[0].1, r[1].1, r[2].1, r[3].1]), "\u{e9}a+a-~", "order of the encoded values");
}
pub fn e_c11_from_sorted() {
    let l = three();
    let r = ParameterList::from_sorted(l);
    check("C11", r.is_some() == (ordered(&l[0], &l[1]) && ordered(&l[1], &l[2])), "from_sorted");
    if let Some(r) = r {
        sorted(r.as_ref(), 3, "from_sorted");
    }
    check("C11", ParameterList::from_sorted([] as [KV; 0]).is_some(), "an empty list is sorted");
    check("C11", ParameterList::from_sorted(one()).is_some(), "a list of one is sorted");
}
pub fn e_c11_from_sorted_four() {
    let l = four();
    let r = ParameterList::<S, TV, Vec<KV>>::from_sorted(Vec::from(l));
    check("C11", r.is_some() == (ordered(&l[0], &l[1]) && ordered(&l[1], &l[2]) && ordered(&l[2], &l[3])), "from_sorted");
}
pub fn e_c11_new() {
    sorted(&ParameterList::new(three()).into_inner(), 3, "new");
}
pub fn e_c11_new_vec() {
    let r = ParameterList::<S, TV>::new(three().to_vec());
    sorted(r.as_ref(), 3, "new");
    let mut i = 0;
    for p in r.iter() {
        check("C11", p.1 .1 == r.as_ref()[i].1 .1, "iter goes through the list in order");
        i += 1;
    }
    check("C11", i == 3, "iter goes through the whole list");
}
pub fn e_c11_refs() {
    let l = three();
    sorted(&ParameterList::new([&l[0], &l[1], &l[2]]).into_inner(), 3, "new");
}
pub fn e_c11_from() {
    sorted(&ParameterList::from(three()).into_inner(), 3, "from");
}
pub fn e_c11_collect() {
    let r: ParameterList<S, TV> = IntoIterator::into_iter(three()).collect();
    sorted(&r.into_inner(), 3, "collect");
}
pub fn e_c11_extend() {
    let mut r: ParameterList<S, TV> = ParameterList::default();
    check("C11", r.as_ref().len() == 0, "the default list is empty");
    r.extend(one());
    sorted(r.as_ref(), 1, "extend");
    r.extend([kv(1, "k2", "v2", "w2"), kv(2, "k3", "v3", "w3")]);
    sorted(r.as_ref(), 3, "extend");
    r.extend([]);
    sorted(r.as_ref(), 3, "extend by nothing");
}

pub fn e_c10_list() {
    let l = ParameterList::new(two());
    let r = l.as_ref();
    let want = cat(&["|", r[0].0, "=", r[0].1.0.s(), "|", r[1].0, "=", r[1].1.0.s()]);
    feeds("C10", &l, want);
}
pub fn e_c10_list_one() {
    feeds("C10", &ParameterList::new([(String::from(sym_str("k")), sym_u64("v"))]), cat(&["|", sym_str("k"), "=", dec(sym_u64("v"))]));
    feeds("C10", &ParameterList::<S, TV>::default(), "");
}
pub fn e_c10_wrapped() {
    let l = ParameterList::new(one());
    let want = cat(&["|", sym_str("k1"), "=", sym_str("v1"), sym_str("w1")]);
    feeds("C10", &&l, want);
    feeds("C10", &&&l, want);
    feeds("C10", &Some(&l), want);
    let mut l = l;
    feeds("C10", &&mut l, want);
    feeds("C10", &Some(Some(l)), want);
}
pub fn e_c10_slice() {
    // what the constructor is given is what is iterated over
    let v = [("a", PV(sym_str("v1"), sym_str("w1"))), ("p", PV(sym_str("v2"), sym_str("w2")))];
    let r = AssertSorted::new(v.iter().map(|x| (x.0, x.1)));
    let want = cat(&["|a=", sym_str("v1"), sym_str("w1"), "|p=", sym_str("v2"), sym_str("w2")]);
    feeds("C10", &r, want);
    feeds("C10", &r, want);
    feeds("C10", &r.clone(), want);
    feeds("C10", &AssertSorted::<core::array::IntoIter<(S, S), 0>>::new([]), "");
}

