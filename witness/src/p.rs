//! Probe functions: the analyser gives them their meaning (see engine/probes.py). They have no body
//! of their own; nothing here is ever run.

macro_rules! probes {
    ($($(#[$m:meta])* fn $name:ident $(<$($g:ident $(: $b:path)?),*>)? ($($a:ident: $t:ty),* $(,)?) $(-> $r:ty)?;)*) => {
        $(#[inline(never)] $(#[$m])* pub fn $name $(<$($g $(: $b)?),*>)? ($($a: $t),*) $(-> $r)? { loop {} })*
    };
}

pub type S = &'static str;

probes! {
    /// An arbitrary string, the same one for the same name.
    fn sym_str(name: S) -> S;
    /// An arbitrary string of n bytes.
    fn sym_str_n(name: S, n: usize) -> S;
    /// An arbitrary string, another one at each call.
    fn fresh_str(name: S) -> S;
    /// Arbitrary bytes, the same ones for the same name.
    fn sym_bytes(name: S) -> &'static [u8];
    fn sym_u64(name: S) -> u64;
    fn sym_usize(name: S) -> usize;
    /// An opaque value that is known by its name only.
    fn sym_obj<T>(name: S) -> T;
    /// An array of equal elements.
    fn ga_fill<T, N: generic_array::ArrayLength<T>>(x: T) -> generic_array::GenericArray<T, N>;
    /// An arbitrary choice.
    fn nd() -> bool;
    /// Ends the path: what led here is outside of the property.
    fn dead() -> !;
    fn assume_pos(n: u64);
    fn assume_le(a: &str, b: &str);
    fn assume_lt(a: &str, b: &str);
    fn assume_ne(a: &str, b: &str);
    fn assume_no(s: &str, bytes: S);
    /// All bytes are among these.
    fn assume_only(s: &str, bytes: S);
    /// A point where states are joined.
    fn join(name: S);
    fn enc(s: &str) -> S;
    fn enc2(s: &str) -> S;
    fn cat(parts: &[&str]) -> S;
    fn dec(n: u64) -> S;
    fn b64(s: &[u8]) -> S;
    /// An uninterpreted function of strings.
    fn term(op: S, args: &[&str]) -> S;
    fn log_set(name: S, s: &str);
    fn log_add(name: S, s: &str);
    fn log_get(name: S) -> S;
    fn check_eq(prop: S, got: &str, want: &str, what: S);
    fn check(prop: S, cond: bool, what: S);
    /// Whatever in `out` depends on `value` is an occurrence of `want`.
    fn check_only(prop: S, out: &str, value: &str, want: &str, what: S);
    /// Whatever in `out` depends on `value` is one single occurrence of `want`.
    fn check_once(prop: S, out: &str, value: &str, want: &str, what: S);
    fn check_has(prop: S, out: &str, want: &str, what: S);
    /// A literal occurs `n` times.
    fn check_count(prop: S, out: &str, lit: S, n: usize, what: S);
    /// What follows the literal.
    fn after(s: &str, lit: S) -> S;
    /// Enough bytes of a cryptographic generator, printed with unreserved characters.
    fn check_nonce(prop: S, n: &str, what: S);
    /// Two strings share no random bytes.
    fn check_apart(prop: S, a: &str, b: &str, what: S);
    /// Whether the clock was after the epoch when it was read for the nth time.
    fn clock_ok(n: usize) -> bool;
    /// Nothing in `out` depends on the symbols whose name starts with `prefix`.
    fn check_free(prop: S, out: &str, prefix: S, what: S);
    fn check_charset(prop: S, out: &str, chars: S, what: S);
    /// From here on the path must panic with a message containing `msg`.
    fn expect_panic(prop: S, msg: S, what: S);
    /// From here on a panic is a violation of the property.
    fn panic_prop(prop: S);
    /// From here on a panic is within the property.
    fn may_panic();
    /// How many times the named ambient effect has happened on the path.
    fn effects(name: S) -> usize;
    fn args_len(a: &core::fmt::Arguments<'_>) -> usize;
    fn args_lit(a: &core::fmt::Arguments<'_>, i: usize) -> Option<&'static str>;
    fn args_opts(a: &core::fmt::Arguments<'_>, i: usize) -> core::fmt::FormattingOptions;
    fn args_call(a: &core::fmt::Arguments<'_>, i: usize, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result;
}
