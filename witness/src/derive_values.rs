//! Field values of derived requests.
use crate::p::*;
use crate::requests::feeds;
use core::fmt::{self, Display, Formatter, Write};
use oauth1_request as oauth;
use std::string::String;

/// A value that is displayed in two arbitrary pieces and may have to be skipped.
#[derive(Clone, Copy)]
pub struct DV {
    a: S,
    b: S,
    pub skip: bool,
}

impl DV {
    pub fn fresh(may_skip: bool) -> DV {
        DV { a: fresh_str("v"), b: fresh_str("w"), skip: may_skip && nd() }
    }
    pub fn s(&self) -> S {
        cat(&[self.a, self.b])
    }
    pub fn fmt_by(&self, f: &mut Formatter<'_>) -> fmt::Result {
        fmt_dv(self, f)
    }
    pub fn skip_by<T>(&self) -> bool {
        self.skip
    }
}

impl Display for DV {
    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
        f.write_str(self.a)?;
        f.write_str(self.b)
    }
}

pub type Opt<T> = Option<T>;

pub fn fmt_dv(v: &DV, f: &mut Formatter<'_>) -> fmt::Result {
    f.write_str("F(")?;
    Display::fmt(v, f)?;
    f.write_str(")")
}

pub fn skip_dv(v: &DV) -> bool {
    v.skip
}

pub fn opt_s(v: &Option<DV>) -> S {
    match v {
        Some(v) => cat(&["Some:", v.s()]),
        None => "None",
    }
}

pub fn fmt_opt(v: &Option<DV>, f: &mut Formatter<'_>) -> fmt::Result {
    match v {
        Some(v) => {
            f.write_str("F(Some:")?;
            Display::fmt(v, f)?;
            f.write_str(")")
        }
        None => f.write_str("F(None)"),
    }
}

/// Reads the flag of an optional value; an absent one is never skipped.
pub fn skip_opt(v: &Option<DV>) -> bool {
    match v {
        Some(v) => v.skip,
        None => false,
    }
}

pub fn skip_opt2(v: &shadow::Opt2) -> bool {
    v.0.skip
}

/// A type by the name of `Option`.
pub mod shadow {
    use super::*;
    pub struct Option<T>(pub T);
    impl<T: Display> Display for Option<T> {
        fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
            self.0.fmt(f)
        }
    }
    pub type Opt2 = Option<DV>;

    pub fn e_c31_shadowed_option() {
        #[derive(oauth::Request)]
        struct R {
            #[oauth1(option = false)]
            b: Option<DV>,
            a: DV,
        }
        let a = DV::fresh(false);
        let b = DV::fresh(false);
        let r = R { b: Option(b), a };
        feeds("C31", &r, cat(&["|a=", a.s(), "|b=", b.s()]));
    }
}
pub use shadow::e_c31_shadowed_option;

fn fmt_str(s: &str, f: &mut Formatter<'_>) -> fmt::Result {
    f.write_str("<")?;
    f.write_str(s)
}

/// Functions that take what the field dereferences to.
pub fn e_c31_deref() {
    #[derive(oauth::Request)]
    struct R<'a> {
        #[oauth1(fmt = fmt_str, skip_if = str::is_empty)]
        z: String,
        #[oauth1(skip_if = str::is_empty)]
        y: &'a str,
        #[oauth1(skip_if = str::is_empty, fmt = fmt_str, encoded)]
        x: Option<&'a str>,
    }
    let x = sym_str("x");
    let y = sym_str("y");
    let z = sym_str("z");
    let some = nd();
    let r = R { z: String::from(z), y, x: if some { Some(x) } else { None } };
    let want = cat(&[
        if some && !x.is_empty() { cat(&["|x~<", x]) } else { "" },
        if !y.is_empty() { cat(&["|y=", y]) } else { "" },
        if !z.is_empty() { cat(&["|z=<", z]) } else { "" },
    ]);
    feeds("C31", &r, want);
}

/// Generic requests.
pub fn e_c31_generic() {
    #[derive(oauth::Request)]
    struct R<'a, T: 'a, U, const N: usize>
    where
        U: Clone,
    {
        t: &'a T,
        #[oauth1(rename = "oauth_a")]
        u: Option<U>,
        #[oauth1(skip)]
        n: [u8; N],
        d: &'a dyn Display,
    }
    let t = DV::fresh(false);
    let u = DV::fresh(false);
    let d = DV::fresh(false);
    let some = nd();
    let r = R { t: &t, u: if some { Some(u) } else { None }, n: [0; 3], d: &d };
    feeds("C31", &r, cat(&["|d=", d.s(), if some { cat(&["|oauth_a=", u.s()]) } else { "" }, "|t=", t.s()]));
    feeds("C31", &Some(&r), cat(&["|d=", d.s(), if some { cat(&["|oauth_a=", u.s()]) } else { "" }, "|t=", t.s()]));
}

macro_rules! by_macro {
    ($name:ident { $($f:ident: $t:ty,)* }) => {
        #[derive(oauth::Request)]
        struct $name { $($f: $t,)* }
    };
}

/// A type that a macro passed on is recognized as optional all the same.
pub fn e_c31_by_macro() {
    by_macro! { R { b: Option<DV>, a: DV, } }
    let a = DV::fresh(false);
    let b = DV::fresh(false);
    let some = nd();
    let r = R { b: if some { Some(b) } else { None }, a };
    feeds("C31", &r, cat(&["|a=", a.s(), if some { cat(&["|b=", b.s()]) } else { "" }]));
}

/// The values of a derived request on their way through a real serializer.
pub fn e_c31_form() {
    #[derive(oauth::Request)]
    struct R {
        b: DV,
        #[oauth1(encoded)]
        a: DV,
        c: Option<DV>,
    }
    let a = DV::fresh(false);
    let b = DV::fresh(false);
    let c = DV::fresh(false);
    let some = nd();
    let out = oauth::to_form(&R { b, a, c: if some { Some(c) } else { None } });
    check_eq("C31", &out, cat(&["a=", a.s(), "&b=", enc(b.a), enc(b.b), if some { cat(&["&c=", enc(c.a), enc(c.b)]) } else { "" }]), "form");
}
