#![allow(unused, static_mut_refs, internal_features)]
#![feature(formatting_options, try_trait_v2)]

pub mod p;
pub mod shims;
pub mod dbgshims;
pub mod stdshims;
pub mod sp;
mod auth;
#[cfg(any(feature = "most", feature = "min"))]
mod values;
#[cfg(any(feature = "most", feature = "min"))]
pub use values::*;
#[cfg(feature = "most")]
mod builder;
#[cfg(feature = "most")]
pub use builder::*;
#[cfg(any(feature = "most", feature = "derived"))]
mod requests;
#[cfg(feature = "most")]
pub use requests::*;
#[cfg(feature = "most")]
mod sigs;
#[cfg(feature = "most")]
pub use sigs::*;
pub use auth::*;
use p::*;
use oauth1_request as oauth;
use oauth::serializer::{Serializer, Urlencoder};
use std::string::String;

#[cfg(any(feature = "most", feature = "derived"))]
pub fn e_c01_form() {
    let v = sym_str("v");
    let mut u = Urlencoder::form();
    u.serialize_parameter("k", v);
    let out = u.end();
    check_eq("C01", &out, cat(&["k=", enc(v)]), "form value");
}
#[cfg(feature = "most")]
mod creds;
#[cfg(feature = "most")]
pub use creds::*;
#[cfg(feature = "most")]
pub mod rec;
#[cfg(feature = "most")]
pub mod lit;
#[cfg(feature = "most")]
pub mod twice;
#[cfg(feature = "most")]
pub mod clones;
#[cfg(feature = "most")]
pub use lit::*;
#[cfg(feature = "most")]
pub mod fail;
#[cfg(feature = "most")]
pub mod dbg;
#[cfg(feature = "most")]
pub mod dev;
#[cfg(all(any(feature = "most", feature = "min"), not(feature = "full")))]
pub mod nostd;
#[cfg(feature = "derived")]
pub mod derive_values;
#[cfg(feature = "derived")]
pub mod derived;
#[cfg(feature = "dev")]
pub mod dev2;
#[cfg(feature = "dev")]
pub use dev2::*;
