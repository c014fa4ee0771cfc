//! What is different without `std`: there is no clock.
use crate::p::*;
use crate::sp::*;
use core::num::NonZeroU64;
use oauth1_request::serializer::auth::{Authorizer, Options};
use oauth1_request::serializer::{Serializer, SerializerExt};
use oauth1_request::Credentials;
use std::string::String;

fn make<'a>(mode: usize, o: &'a Options<'a>, pm: PM) -> Authorizer<'a, PM, String> {
    let client = Credentials::new(sym_str("ck"), sym_str("sec:cs"));
    let token = if nd() { Some(Credentials::new(sym_str("tk"), sym_str("sec:ts"))) } else { None };
    let uri = sym_str("uri");
    assume_no(uri, "?");
    log_set("sign", "");
    log_set("base", "");
    match mode {
        0 => Authorizer::authorization_with_buf(String::new(), "M", uri, client, token, o, pm),
        1 => Authorizer::form_with_buf(String::new(), "M", uri, client, token, o, pm),
        _ => Authorizer::query("M", String::from(uri), client, token, o, pm),
    }
}

/// A timestamp is needed, and not supplied.
fn missing(mode: usize) {
    let mut o = Options::new();
    if nd() {
        o.nonce(sym_str("nonce"));
    }
    let mut s = make(mode, &o, PM { use_nonce: nd(), use_timestamp: true });
    expect_panic("C46", "", "a default timestamp without a clock");
    if nd() {
        s.serialize_oauth_timestamp();
    } else {
        s.serialize_oauth_parameters();
    }
}
pub fn e_c46_clock_header() {
    missing(0);
}
pub fn e_c46_clock_form() {
    missing(1);
}
pub fn e_c46_clock_query() {
    missing(2);
}

/// None is needed, or one is supplied.
fn without(mode: usize) {
    let t = sym_u64("timestamp");
    assume_pos(t);
    let used = nd();
    let mut o = Options::new();
    o.nonce(sym_str("nonce"));
    if used || nd() {
        o.timestamp(NonZeroU64::new(t));
    }
    let mut s = make(mode, &o, PM { use_nonce: nd(), use_timestamp: used });
    s.serialize_oauth_timestamp();
    let want = if used { cat(&["oauth_timestamp%3D", dec(t)]) } else { "" };
    check_eq("C46", log_get("base"), want, "the timestamp signed");
    let out = s.end();
    if used {
        let q = if mode == 0 { cat(&["oauth_timestamp=\"", dec(t), "\""]) } else { cat(&["oauth_timestamp=", dec(t)]) };
        check_has("C46", &out, q, "the timestamp sent");
    } else {
        check_count("C46", &out, "oauth_timestamp", 0, "no timestamp");
    }
}
pub fn e_c46_header() {
    without(0);
}
pub fn e_c46_form() {
    without(1);
}
pub fn e_c46_query() {
    without(2);
}
