//! Stand-ins for the builders behind `Debug`: the same pieces in the same order, without indentation.
use core::fmt::{self, Debug, Formatter, Write};

pub struct DB<'a, 'b> {
    f: &'a mut Formatter<'b>,
    r: fmt::Result,
    has: bool,
}
pub struct DM<'a, 'b> {
    f: &'a mut Formatter<'b>,
    r: fmt::Result,
    has: bool,
    key: bool,
}
pub struct DL<'a, 'b> {
    inner: DB<'a, 'b>,
}

pub fn debug_struct<'a, 'b>(f: &'a mut Formatter<'b>, name: &str) -> DB<'a, 'b> {
    let r = f.write_str(name);
    DB { f, r, has: false }
}
fn field_<'x, 'a, 'b>(d: &'x mut DB<'a, 'b>, name: &str, v: &dyn Debug) -> fmt::Result {
    d.r?;
    d.f.write_str(if d.has { ", " } else { " { " })?;
    d.f.write_str(name)?;
    d.f.write_str(": ")?;
    v.fmt(d.f)
}
pub fn struct_field<'x, 'a, 'b>(d: &'x mut DB<'a, 'b>, name: &str, v: &dyn Debug) -> &'x mut DB<'a, 'b> {
    d.r = field_(d, name, v);
    d.has = true;
    d
}
pub fn struct_finish_non_exhaustive(d: &mut DB<'_, '_>) -> fmt::Result {
    d.r?;
    d.f.write_str(if d.has { ", .. }" } else { " { .. }" })
}
pub fn struct_finish(d: &mut DB<'_, '_>) -> fmt::Result {
    d.r?;
    if d.has {
        d.f.write_str(" }")?;
    }
    Ok(())
}
pub fn debug_tuple<'a, 'b>(f: &'a mut Formatter<'b>, name: &str) -> DB<'a, 'b> {
    let r = f.write_str(name);
    DB { f, r, has: false }
}
fn tfield_(d: &mut DB<'_, '_>, v: &dyn Debug) -> fmt::Result {
    d.r?;
    d.f.write_str(if d.has { ", " } else { "(" })?;
    v.fmt(d.f)
}
pub fn tuple_field<'x, 'a, 'b>(d: &'x mut DB<'a, 'b>, v: &dyn Debug) -> &'x mut DB<'a, 'b> {
    d.r = tfield_(d, v);
    d.has = true;
    d
}
pub fn tuple_finish(d: &mut DB<'_, '_>) -> fmt::Result {
    d.r?;
    if d.has {
        d.f.write_str(")")?;
    }
    Ok(())
}
pub fn tuple_finish_non_exhaustive(d: &mut DB<'_, '_>) -> fmt::Result {
    d.r?;
    d.f.write_str(if d.has { ", ..)" } else { "(..)" })
}
pub fn tfields_finish(f: &mut Formatter<'_>, name: &str, values: &[&dyn Debug]) -> fmt::Result {
    let mut d = debug_tuple(f, name);
    let mut i = 0;
    while i < values.len() {
        tuple_field(&mut d, values[i]);
        i += 1;
    }
    tuple_finish(&mut d)
}
pub fn tfield1_finish(f: &mut Formatter<'_>, n: &str, v1: &dyn Debug) -> fmt::Result {
    tfields_finish(f, n, &[v1])
}
pub fn tfield2_finish(f: &mut Formatter<'_>, n: &str, v1: &dyn Debug, v2: &dyn Debug) -> fmt::Result {
    tfields_finish(f, n, &[v1, v2])
}
pub fn tfield3_finish(f: &mut Formatter<'_>, n: &str, v1: &dyn Debug, v2: &dyn Debug, v3: &dyn Debug) -> fmt::Result {
    tfields_finish(f, n, &[v1, v2, v3])
}
pub fn tfield4_finish(f: &mut Formatter<'_>, n: &str, v1: &dyn Debug, v2: &dyn Debug, v3: &dyn Debug, v4: &dyn Debug) -> fmt::Result {
    tfields_finish(f, n, &[v1, v2, v3, v4])
}

pub fn tfield5_finish(f: &mut Formatter<'_>, n: &str, v1: &dyn Debug, v2: &dyn Debug, v3: &dyn Debug, v4: &dyn Debug, v5: &dyn Debug) -> fmt::Result {
    tfields_finish(f, n, &[v1, v2, v3, v4, v5])
}

pub fn debug_list<'a, 'b>(f: &'a mut Formatter<'b>) -> DL<'a, 'b> {
    let r = f.write_str("[");
    DL { inner: DB { f, r, has: false } }
}
pub fn debug_set<'a, 'b>(f: &'a mut Formatter<'b>) -> DL<'a, 'b> {
    let r = f.write_str("{");
    DL { inner: DB { f, r, has: false } }
}
fn entry_(d: &mut DB<'_, '_>, v: &dyn Debug) -> fmt::Result {
    d.r?;
    if d.has {
        d.f.write_str(", ")?;
    }
    v.fmt(d.f)
}
pub fn list_entry<'x, 'a, 'b>(d: &'x mut DL<'a, 'b>, v: &dyn Debug) -> &'x mut DL<'a, 'b> {
    d.inner.r = entry_(&mut d.inner, v);
    d.inner.has = true;
    d
}
pub fn list_finish(d: &mut DL<'_, '_>) -> fmt::Result {
    d.inner.r?;
    d.inner.f.write_str("]")
}
pub fn set_finish(d: &mut DL<'_, '_>) -> fmt::Result {
    d.inner.r?;
    d.inner.f.write_str("}")
}

pub fn debug_map<'a, 'b>(f: &'a mut Formatter<'b>) -> DM<'a, 'b> {
    let r = f.write_str("{");
    DM { f, r, has: false, key: false }
}
fn part_(d: &mut DM<'_, '_>, v: &dyn Debug, before: &str) -> fmt::Result {
    d.r?;
    d.f.write_str(before)?;
    v.fmt(d.f)
}
pub fn map_key<'x, 'a, 'b>(d: &'x mut DM<'a, 'b>, v: &dyn Debug) -> &'x mut DM<'a, 'b> {
    let b = if d.has { ", " } else { "" };
    d.r = part_(d, v, b);
    d.has = true;
    d
}
pub fn map_value<'x, 'a, 'b>(d: &'x mut DM<'a, 'b>, v: &dyn Debug) -> &'x mut DM<'a, 'b> {
    d.r = part_(d, v, ": ");
    d
}
pub fn map_entry<'x, 'a, 'b>(d: &'x mut DM<'a, 'b>, k: &dyn Debug, v: &dyn Debug) -> &'x mut DM<'a, 'b> {
    map_key(d, k);
    map_value(d, v)
}
pub fn map_finish(d: &mut DM<'_, '_>) -> fmt::Result {
    d.r?;
    d.f.write_str("}")
}
