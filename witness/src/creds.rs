//! Credentials and tokens.
use crate::p::*;
use oauth1_request::{Credentials, Token};
use std::string::String;

fn c1() -> Credentials<S> {
    Credentials::new(sym_str("id"), sym_str("sec:se"))
}
fn c2() -> Credentials<String> {
    Credentials::new(String::from(sym_str("tid")), String::from(sym_str("sec:tse")))
}
fn tok() -> Token<S, String> {
    Token::new(c1(), c2())
}
fn eq(got: &str, want: S, what: S) {
    check_eq("C27", got, want, what);
}
/// A type of its own for each role.
pub struct W(S, S);
impl AsRef<str> for W {
    fn as_ref(&self) -> &str {
        self.0
    }
}

pub fn e_c27_credentials() {
    let c = c1();
    eq(c.identifier, sym_str("id"), "field");
    eq(c.secret, sym_str("sec:se"), "field");
    eq(c.identifier(), sym_str("id"), "identifier()");
    eq(c.secret(), sym_str("sec:se"), "secret()");
    let r = c.as_ref();
    eq(r.identifier, sym_str("id"), "as_ref");
    eq(r.secret, sym_str("sec:se"), "as_ref");
    let c = c2();
    let r = c.as_ref();
    eq(r.identifier, sym_str("tid"), "as_ref");
    eq(r.secret, sym_str("sec:tse"), "as_ref");
    let r = Credentials::<&str>::from(&c);
    eq(r.identifier, sym_str("tid"), "from");
    eq(r.secret, sym_str("sec:tse"), "from");
    let r = c.clone();
    eq(&r.identifier, sym_str("tid"), "clone");
    eq(&r.secret, sym_str("sec:tse"), "clone");
    let r = c1().clone();
    eq(r.identifier, sym_str("id"), "clone");
    eq(r.secret, sym_str("sec:se"), "clone");
}

fn mapper(s: &str) -> W {
    log_add("map", cat(&["(", s, ")"]));
    W(term("f", &[s]), log_get("map"))
}
fn mapped(w: &W, s: S) {
    eq(w.0, term("f", &[s]), "mapped value");
}
/// Once for each, in either order.
fn once(a: S, b: S) {
    let got = log_get("map");
    let x = cat(&["(", a, ")(", b, ")"]);
    let y = cat(&["(", b, ")(", a, ")"]);
    check("C27", got == x || got == y, "applied once to each");
}

pub fn e_c27_map() {
    log_set("map", "");
    let c = c1().map(mapper);
    mapped(&c.identifier, sym_str("id"));
    mapped(&c.secret, sym_str("sec:se"));
    once(sym_str("id"), sym_str("sec:se"));
}
pub fn e_c27_map_owned() {
    log_set("map", "");
    let c = c2().map(|s| mapper(&s));
    mapped(&c.identifier, sym_str("tid"));
    mapped(&c.secret, sym_str("sec:tse"));
    once(sym_str("tid"), sym_str("sec:tse"));
}

fn whole(t: &Token<&str, &str>, what: S) {
    eq(t.client.identifier, sym_str("id"), what);
    eq(t.client.secret, sym_str("sec:se"), what);
    eq(t.token.identifier, sym_str("tid"), what);
    eq(t.token.secret, sym_str("sec:tse"), what);
}

pub fn e_c27_token() {
    let t = tok();
    eq(t.client.identifier, sym_str("id"), "new");
    eq(t.client.secret, sym_str("sec:se"), "new");
    eq(&t.token.identifier, sym_str("tid"), "new");
    eq(&t.token.secret, sym_str("sec:tse"), "new");
    let c = t.client();
    eq(c.identifier, sym_str("id"), "client");
    eq(c.secret, sym_str("sec:se"), "client");
    let c = t.token();
    eq(c.identifier, sym_str("tid"), "token");
    eq(c.secret, sym_str("sec:tse"), "token");
    whole(&t.as_ref(), "as_ref");
    whole(&Token::<&str>::from(&t), "from");
    whole(&Token::from_ref(&c1(), &c2()), "from_ref");
    whole(&Token::from_ref(&t.client, &t.token), "from_ref");
    let u = t.clone();
    whole(&u.as_ref(), "clone");
    whole(&Token::from_parts(sym_str("id"), sym_str("sec:se"), sym_str("tid"), sym_str("sec:tse")), "from_parts");
    let p = Token::from_parts(sym_str("id"), sym_str("sec:se"), String::from(sym_str("tid")), String::from(sym_str("sec:tse")));
    whole(&p.as_ref(), "from_parts");
}
pub fn e_c27_map_client() {
    log_set("map", "");
    let t = tok().map_client(mapper);
    mapped(&t.client.identifier, sym_str("id"));
    mapped(&t.client.secret, sym_str("sec:se"));
    eq(&t.token.identifier, sym_str("tid"), "map_client");
    eq(&t.token.secret, sym_str("sec:tse"), "map_client");
    once(sym_str("id"), sym_str("sec:se"));
}
pub fn e_c27_map_token() {
    log_set("map", "");
    let t = tok().map_token(|s| mapper(&s));
    eq(t.client.identifier, sym_str("id"), "map_token");
    eq(t.client.secret, sym_str("sec:se"), "map_token");
    mapped(&t.token.identifier, sym_str("tid"));
    mapped(&t.token.secret, sym_str("sec:tse"));
    once(sym_str("tid"), sym_str("sec:tse"));
}
pub fn e_c27_map_both() {
    log_set("a", "");
    let t = Token::from_parts(sym_str("id"), sym_str("sec:se"), sym_str("tid"), sym_str("sec:tse"));
    let t = t.map(|s| {
        log_add("a", "x");
        if s == sym_str("id") {
            log_add("a", "1");
        }
        W(term("f", &[s]), "")
    });
    mapped(&t.client.identifier, sym_str("id"));
    mapped(&t.client.secret, sym_str("sec:se"));
    mapped(&t.token.identifier, sym_str("tid"));
    mapped(&t.token.secret, sym_str("sec:tse"));
}
pub fn e_c27_map_count() {
    let t = Token::from_parts("a", "b", "c", "d");
    let (mut n, mut a, mut b, mut c, mut d) = (0, 0, 0, 0, 0);
    let t = t.map(|s| {
        n += 1;
        match s {
            "a" => a += 1,
            "b" => b += 1,
            "c" => c += 1,
            "d" => d += 1,
            _ => {}
        }
        s
    });
    check("C27", n == 4 && a == 1 && b == 1 && c == 1 && d == 1, "applied once to each");
    check("C27", t.client.identifier == "a" && t.client.secret == "b" && t.token.identifier == "c" && t.token.secret == "d", "map");
}

// serde

use core::fmt::{self, Display};
use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize, SerializeStruct};
use serde::{Deserialize, Deserializer, Serializer};

#[derive(Debug)]
pub struct Er(u8, S);
impl Display for Er {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Er {}
impl ser::Error for Er {
    fn custom<T: Display>(_: T) -> Self {
        Er(1, "")
    }
}
impl de::Error for Er {
    fn custom<T: Display>(_: T) -> Self {
        Er(1, "")
    }
    fn missing_field(f: S) -> Self {
        Er(2, f)
    }
    fn duplicate_field(f: S) -> Self {
        Er(3, f)
    }
    fn unknown_field(f: &str, _: &'static [&'static str]) -> Self {
        Er(4, cat(&[f]))
    }
}

/// A value whose serialization is seen, and which may fail.
pub struct V(S);
impl AsRef<str> for V {
    fn as_ref(&self) -> &str {
        self.0
    }
}
impl Serialize for V {
    fn serialize<T: Serializer>(&self, s: T) -> Result<T::Ok, T::Error> {
        s.serialize_str(self.0)
    }
}

/// A data format that says what it is asked for. `fail`: the call that fails.
pub struct Ser {
    fail: u8,
}
type Never = ser::Impossible<(), Er>;
macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => { $(fn $f(self $(, _: $t)*) -> Result<(), Er> { log_add("ser", "other"); Ok(()) })* };
}
impl Serializer for Ser {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Never;
    type SerializeTuple = Never;
    type SerializeTupleStruct = Never;
    type SerializeTupleVariant = Never;
    type SerializeMap = Ser;
    type SerializeStruct = Ser;
    type SerializeStructVariant = Never;
    no! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32); serialize_f64(f64);
        serialize_char(char); serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(S);
        serialize_unit_variant(S, u32, S);
    }
    fn serialize_str(self, v: &str) -> Result<(), Er> {
        log_add("ser", v);
        Ok(())
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<(), Er> {
        log_add("ser", "other");
        Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: S, _: &T) -> Result<(), Er> {
        log_add("ser", "other");
        Ok(())
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: S, _: u32, _: S, _: &T) -> Result<(), Er> {
        log_add("ser", "other");
        Ok(())
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Never, Er> {
        Err(Er(9, ""))
    }
    fn serialize_tuple(self, _: usize) -> Result<Never, Er> {
        Err(Er(9, ""))
    }
    fn serialize_tuple_struct(self, _: S, _: usize) -> Result<Never, Er> {
        Err(Er(9, ""))
    }
    fn serialize_tuple_variant(self, _: S, _: u32, _: S, _: usize) -> Result<Never, Er> {
        Err(Er(9, ""))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Ser, Er> {
        log_add("ser", if n == Some(2) || n == None { "{" } else { "?{" });
        Ok(self)
    }
    fn serialize_struct(self, _: S, n: usize) -> Result<Ser, Er> {
        log_add("ser", if n == 2 { "{" } else { "?{" });
        if self.fail == 1 {
            return Err(Er(7, "1"));
        }
        Ok(self)
    }
    fn serialize_struct_variant(self, _: S, _: u32, _: S, _: usize) -> Result<Never, Er> {
        Err(Er(9, ""))
    }
    fn collect_str<T: ?Sized + Display>(self, _: &T) -> Result<(), Er> {
        log_add("ser", "other");
        Ok(())
    }
}
impl SerializeStruct for Ser {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: S, v: &T) -> Result<(), Er> {
        log_add("ser", cat(&[k, ":"]));
        v.serialize(Ser { fail: 0 })?;
        log_add("ser", ",");
        if self.fail == 2 && k == "oauth_token" || self.fail == 3 && k == "oauth_token_secret" {
            return Err(Er(7, k));
        }
        Ok(())
    }
    fn end(self) -> Result<(), Er> {
        log_add("ser", "}");
        if self.fail == 4 {
            return Err(Er(7, "4"));
        }
        Ok(())
    }
}
impl ser::SerializeMap for Ser {
    type Ok = ();
    type Error = Er;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Er> {
        k.serialize(Ser { fail: 0 })?;
        log_add("ser", ":");
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Er> {
        v.serialize(Ser { fail: 0 })?;
        log_add("ser", ",");
        Ok(())
    }
    fn end(self) -> Result<(), Er> {
        log_add("ser", "}");
        Ok(())
    }
}

fn wanted() -> S {
    let (a, b) = (cat(&["oauth_token:", sym_str("id"), ","]), cat(&["oauth_token_secret:", sym_str("sec:se"), ","]));
    cat(&["{", a, b, "}"])
}
pub fn e_c28_fields() {
    log_set("ser", "");
    let r = Credentials::new(V(sym_str("id")), V(sym_str("sec:se"))).serialize(Ser { fail: 0 });
    check("C28", r.is_ok(), "succeeds when the format does");
    check_eq("C28", log_get("ser"), wanted(), "two fields with their values, in order");
}
pub fn e_c28_str() {
    log_set("ser", "");
    let r = c1().serialize(Ser { fail: 0 });
    check("C28", r.is_ok(), "succeeds when the format does");
    check_eq("C28", log_get("ser"), wanted(), "two fields with their values, in order");
}
pub fn e_c28_errors() {
    let mut i = 1;
    while i <= 4 {
        log_set("ser", "");
        let r = c1().serialize(Ser { fail: i });
        check("C28", matches!(r, Err(Er(7, _))), "an error of the format is returned");
        i += 1;
    }
}

/// A data format that has any fields in any order.
pub struct De;
pub struct Map {
    ids: u8,
    secrets: u8,
    others: u8,
    left: u8,
    pending: u8,
    how: u8,
}
/// How a format may present a key or a value.
pub struct Str(S, u8);

impl<'de> Deserializer<'de> for Str {
    type Error = Er;
    fn deserialize_any<W: Visitor<'de>>(self, v: W) -> Result<W::Value, Er> {
        match self.1 {
            0 => v.visit_str(self.0),
            1 => v.visit_borrowed_str(self.0),
            3 => v.visit_bytes(self.0.as_bytes()),
            _ => v.visit_borrowed_bytes(self.0.as_bytes()),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

/// A value that remembers what it was made of.
pub struct Got(S);
impl<'de> Deserialize<'de> for Got {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Got, D::Error> {
        struct Vis;
        impl<'de> Visitor<'de> for Vis {
            type Value = Got;
            fn expecting(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
                Ok(())
            }
            fn visit_str<E>(self, s: &str) -> Result<Got, E> {
                Ok(Got(cat(&[s])))
            }
        }
        d.deserialize_str(Vis)
    }
}

impl<'de> Deserializer<'de> for Map {
    type Error = Er;
    fn deserialize_any<W: Visitor<'de>>(self, v: W) -> Result<W::Value, Er> {
        v.visit_map(self)
    }
    fn deserialize_struct<W: Visitor<'de>>(self, _: S, fields: &'static [S], v: W) -> Result<W::Value, Er> {
        // formats without field names go by this list
        check("C29", fields.len() == 2 && fields[0] == "oauth_token" && fields[1] == "oauth_token_secret", "list of fields");
        v.visit_map(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map enum identifier ignored_any
    }
}

impl<'de> de::MapAccess<'de> for Map {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Er> {
        if self.left == 0 {
            return Ok(None);
        }
        self.left -= 1;
        check("C29", self.pending == 0, "each key is followed by its value");
        let k = if nd() {
            self.pending = 1;
            "oauth_token"
        } else if nd() {
            self.pending = 2;
            "oauth_token_secret"
        } else {
            self.pending = 3;
            if self.others == 0 {
                let k = fresh_str("other");
                k
            } else {
                "oauth_token_"
            }
        };
        let r = seed.deserialize(Str(k, self.how)).map(Some);
        if self.pending == 3 && (k == "oauth_token" || k == "oauth_token_secret") {
            dead();
        }
        r
    }
    fn next_value_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<K::Value, Er> {
        let p = self.pending;
        self.pending = 0;
        let v = match p {
            1 => {
                self.ids += 1;
                log_add("ids", "i");
                sym_str("id")
            }
            2 => {
                self.secrets += 1;
                log_add("ids", "s");
                sym_str("sec:se")
            }
            3 => {
                self.others += 1;
                "other"
            }
            _ => {
                check("C29", false, "each key is followed by its value");
                ""
            }
        };
        seed.deserialize(Str(v, 0))
    }
}

fn de(n: u8, how: u8) {
    log_set("ids", "");
    let m = Map { ids: 0, secrets: 0, others: 0, left: n, pending: 0, how };
    let r = Credentials::<Got>::deserialize(m);
    let seen = log_get("ids");
    match r {
        Ok(c) => {
            check("C29", seen == "is" || seen == "si", "both fields once");
            check_eq("C29", c.identifier.0, sym_str("id"), "identifier");
            check_eq("C29", c.secret.0, sym_str("sec:se"), "secret");
        }
        Err(Er(2, f)) => {
            check("C29", seen == "" && (f == "oauth_token" || f == "oauth_token_secret") || seen == "i" && f == "oauth_token_secret" || seen == "s" && f == "oauth_token", "missing field");
        }
        Err(Er(3, f)) => {
            // the second value may or may not have been taken
            check("C29", seen == "i" && f == "oauth_token" || seen == "s" && f == "oauth_token_secret" || seen == "ii" && f == "oauth_token" || seen == "ss" && f == "oauth_token_secret"
                || (seen == "is" || seen == "si") && (f == "oauth_token" || f == "oauth_token_secret")
                || (seen == "iis" || seen == "isi" || seen == "sii") && f == "oauth_token" || (seen == "ssi" || seen == "sis" || seen == "iss") && f == "oauth_token_secret", "repeated field");
        }
        Err(_) => check("C29", false, "no other error"),
    }
}
pub fn e_c29_none() {
    de(0, 0);
}
pub fn e_c29_one() {
    de(1, 0);
}
pub fn e_c29_two() {
    de(2, 0);
}
pub fn e_c29_three() {
    de(3, 0);
}
pub fn e_c29_borrowed() {
    de(2, 1);
}
pub fn e_c29_bytes() {
    de(3, 3);
}
pub fn e_c29_borrowed_bytes() {
    de(2, 4);
}
/// Nothing else is needed of a format than what it documents.
pub fn e_c29_errors() {
    let r = Credentials::<Got>::deserialize(De);
    check("C29", matches!(r, Err(Er(7, "map"))), "an error of the format is returned");
}
impl<'de> Deserializer<'de> for De {
    type Error = Er;
    fn deserialize_any<W: Visitor<'de>>(self, _: W) -> Result<W::Value, Er> {
        Err(Er(7, "map"))
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
pub struct Fail(u8);
impl<'de> Deserializer<'de> for Fail {
    type Error = Er;
    fn deserialize_any<W: Visitor<'de>>(self, v: W) -> Result<W::Value, Er> {
        v.visit_map(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> de::MapAccess<'de> for Fail {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Er> {
        let n = self.0;
        self.0 += 1;
        match n {
            0 | 4 => Err(Er(7, "key")),
            1 => seed.deserialize(Str("oauth_token", 0)).map(Some),
            2 => seed.deserialize(Str("oauth_token_secret", 0)).map(Some),
            _ => seed.deserialize(Str("x", 0)).map(Some),
        }
    }
    fn next_value_seed<K: DeserializeSeed<'de>>(&mut self, _: K) -> Result<K::Value, Er> {
        Err(Er(7, "value"))
    }
}
pub fn e_c29_format_errors() {
    check("C29", matches!(Credentials::<Got>::deserialize(Fail(0)), Err(Er(7, "key"))), "an error of the format is returned");
    check("C29", matches!(Credentials::<Got>::deserialize(Fail(1)), Err(Er(7, "value"))), "an error of the format is returned");
    check("C29", matches!(Credentials::<Got>::deserialize(Fail(2)), Err(Er(7, "value"))), "an error of the format is returned");
    check("C29", matches!(Credentials::<Got>::deserialize(Fail(3)), Err(Er(7, "value"))), "an error of the format is returned");
}
