"""The programs that must, and those that must not, derive `Request`. Each case is a module of its own."""

# (name, source). `D` stands for the derive attribute.
PRE = "use core::fmt::{self, Display, Formatter};\n"
FN = "fn fm<T: ?Sized>(_: &T, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }\nfn sk<T: ?Sized>(_: &T) -> bool { true }\n"
KEYWORDS = "as break const continue else enum extern false fn for if impl in let loop match mod move mut pub ref return static struct trait true type unsafe use where while async await dyn abstract become box do final macro override priv typeof unsized virtual yield try".split()
# Names that the derived code uses, or might use, for itself.
LOCALS = "self_ this serializer ser s helper tmp value fmt skip_if f t it x _x name key val v option some none res ret i n cond display next_param krate params bind".split()
TYPES = "Fmt SkipIf DeriveRequestAssertion Request Serializer Helper Display Formatter Result Option Some None Ok Err Copy Clone Fn FnOnce Sized Into From AsRef ToString String Vec Box Iterator Self_ T F S _T _F U Output Error Impl Assert PhantomData Default Drop Send Sync bool str u8 usize".split()


def accept():
    out = []

    def a(name, src):
        out.append((name, src))

    for k in KEYWORDS:
        a("raw_%s" % k, "D struct R { r#%s: u8, b: u8 }" % k)
    a("raw_all_attrs", FN + "D struct R { #[oauth1(fmt = fm, skip_if = sk, encoded)] r#type: Option<u8>, #[oauth1(rename = \"x\")] r#fn: u8, #[oauth1(skip)] r#mod: u8, #[oauth1(option = true)] r#use: Option<u8> }")
    a("raw_name_of_struct", "D struct r#type { a: u8 }")
    a("raw_generics", "D struct R<'r#a, r#type: 'r#a> { a: &'r#a r#type }" if False else "D struct R<r#type> { a: r#type }")
    for n in LOCALS:
        a("field_%s" % n, FN + "D struct R { %s: u8, #[oauth1(fmt = fm, skip_if = sk)] zz: Option<u8> }" % n)
        a("field_opt_%s" % n, FN + "D struct R { #[oauth1(fmt = fm, skip_if = sk)] %s: Option<u8> }" % n)
        a("function_%s" % n, "fn %s(_: &u8, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }\nD struct R { a: u8, #[oauth1(fmt = %s)] b: u8, #[oauth1(fmt = %s)] c: Option<u8> }" % (n, n, n))
        a("predicate_%s" % n, "fn %s(_: &u8) -> bool { true }\nD struct R { a: u8, #[oauth1(skip_if = %s)] b: u8, #[oauth1(skip_if = %s)] c: Option<u8> }" % (n, n, n))
        a("module_%s" % n, "pub mod %s { pub fn f(_: &u8, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } pub fn s(_: &u8) -> bool { true } }\nD struct R { #[oauth1(fmt = %s::f, skip_if = %s::s)] a: u8 }" % (n, n, n))
    for n in TYPES:
        if n not in ("bool", "str", "u8", "usize", "Self_"):
            a("param_%s" % n, FN + "D struct R<%s> { #[oauth1(fmt = fm, skip_if = sk)] a: %s, #[oauth1(option = true)] b: ::core::option::Option<i8> }" % (n, n))
            a("struct_%s" % n, "D struct %s { a: i8 }" % n)
        if n not in ("Ok", "Err", "Some", "None"):
            f = "fn fm(_: &i8, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::result::Result::Ok(()) }\nfn sk(_: &i8) -> ::core::primitive::bool { true }\n"
            d = "D struct R { #[oauth1(fmt = fm, skip_if = sk)] a: i8, b: i8, #[oauth1(option = true, fmt = fm, skip_if = sk)] c: ::core::option::Option<i8>, #[oauth1(option = true)] d: ::core::option::Option<i8> }"
            a("shadow_struct_%s" % n, f + "struct %s { _x: () }\n" % n + d)
            a("shadow_trait_%s" % n, f + "trait %s {}\n" % n + d)
            a("shadow_mod_%s" % n, f + "mod %s {}\n" % n + d)
            a("shadow_generic_type_%s" % n, f + "type %s<A> = [A; 0];\n" % n + d)
    for n in ("core", "std", "alloc", "oauth", "oauth1_request", "fmt", "option", "serializer", "request"):
        a("shadow_mod_%s" % n, "mod %s {}\n" % n + "fn fm(_: &i8, _: &mut ::core::fmt::Formatter<'_>) -> ::core::fmt::Result { ::core::result::Result::Ok(()) }\nfn sk(_: &i8) -> bool { true }\n"
          "D struct R { #[oauth1(fmt = fm, skip_if = sk)] a: i8, b: Option<i8> }")
    a("shadow_variants", "#[allow(dead_code)] enum E { Some, None, Ok, Err }\nuse self::E::*;\nfn fm(_: &i8, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Result::Ok(()) }\nfn sk(_: &i8) -> bool { true }\n"
      "D struct R { #[oauth1(fmt = fm, skip_if = sk)] a: i8, b: Option<i8>, #[oauth1(fmt = fm, skip_if = sk)] c: Option<i8> }")
    a("shadow_functions", "fn drop() {}\nD struct R { a: i8, b: Option<i8> }")
    a("competing_methods", FN + """
trait Tr { fn serialize_parameter(&mut self, _: &str, _: i8) {} fn serialize_parameter_encoded(&mut self, _: &str, _: i8) {} fn end(&self) {} fn fmt(&self) {} fn fmt_impls_fn(&self) {} fn skip_if_impls_fn(&self) {} fn as_ref(&self) {} fn serialize_oauth_token(&mut self) {} fn is_some(&self) {} }
impl<T: ?Sized> Tr for T {}
D struct R { a: i8, #[oauth1(encoded)] b: i8, #[oauth1(fmt = fm, skip_if = sk)] c: Option<i8>, d: Option<i8> }""")
    a("competing_inherent", """
struct V;
impl V { fn as_ref(&self) -> u8 { 0 } fn fmt(&self) {} fn to_string(&self) {} fn is_none(&self) {} fn clone(&self) {} }
impl core::fmt::Display for V { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
D struct R { a: V, b: Option<V> }
impl R { fn serialize(&self) {} fn new() {} }""")
    a("empty", "D struct R {}")
    a("lifetime", "D struct R<'a> { a: &'a str, b: Option<&'a str> }")
    a("lifetimes", "D struct R<'a, 'b: 'a> { a: &'a &'b str, b: Option<&'b str> }")
    a("lifetime_named_like_generated", "D struct R<'s, 'ser, 'f, 't> { a: &'s str, b: &'ser str, c: &'f str, d: &'t str }")
    a("generic", "D struct R<T> { a: T, b: Option<T> }")
    a("generic_bound", "D struct R<T: Clone + core::fmt::Debug> { a: T }")
    a("generic_display", "D struct R<T: core::fmt::Display> { a: T }")
    a("generic_bound_comma", "D struct R<T: ,> where T: Clone, { a: T }")
    a("generic_unsized", "D struct R<'a, T: ?Sized> { a: &'a T, b: Option<&'a T> }")
    a("generic_default", "D struct R<T = u8> { a: T }")
    a("generic_where", "D struct R<T> where T: Clone, for<'x> &'x T: PartialEq { a: T }")
    a("generic_where_self", "D struct R<T> where Self: Sized { a: T }")
    a("generic_const", "D struct R<const N: usize> { #[oauth1(skip)] a: [u8; N], b: u8 }")
    a("generic_const_default", "D struct R<const N: usize = 3, const B: bool = true> { #[oauth1(skip)] a: [u8; N], b: u8 }")
    a("generic_all", FN + "D struct R<'a, T: 'a + ?Sized, U: Clone = u8, const N: usize = 1> where U: Default { #[oauth1(skip)] a: [u8; N], b: &'a T, #[oauth1(fmt = fm, skip_if = sk)] c: Option<U> }")
    a("generic_assoc", "D struct R<I: Iterator> where I::Item: core::fmt::Display { #[oauth1(skip)] i: core::marker::PhantomData<I>, a: I::Item }")
    a("hrtb", "D struct R<F: for<'x> Fn(&'x u8) -> &'x u8> { #[oauth1(skip)] f: core::marker::PhantomData<F>, a: u8 }")
    a("unsized_tail", "D struct R { a: u8, z: str }")
    a("unsized_tail_dyn", "D struct R { z: u8, a: dyn core::fmt::Display }")
    a("unsized_tail_fmt", FN + "D struct R { z: u8, #[oauth1(fmt = fm, skip_if = sk)] a: [u8] }")
    a("reference_to_dyn", "D struct R<'a> { a: &'a dyn core::fmt::Display, b: &'a (dyn core::fmt::Display + Send) }")
    a("references", "D struct R<'a> { a: &'a &'a mut u8, b: &'static str, c: &'a mut u8 }")
    a("never_copied", "struct V;\nimpl core::fmt::Display for V { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }\nD struct R { a: V, b: Option<V> }")
    a("not_display_with_fmt", FN + "struct V;\nD struct R { #[oauth1(fmt = fm)] a: V, #[oauth1(fmt = fm)] b: Option<V>, #[oauth1(fmt = fm)] c: fn(), #[oauth1(fmt = fm)] d: (), #[oauth1(fmt = fm)] e: [u8; 2], #[oauth1(fmt = fm)] f: (u8, V) }")
    a("not_display_skipped", "struct V;\nD struct R { #[oauth1(skip)] a: V }")
    a("deref_fmt", "fn fm(_: &str, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }\nD struct R<'a> { #[oauth1(fmt = fm, skip_if = str::is_empty)] a: String, #[oauth1(fmt = fm, skip_if = str::is_empty)] b: &'a Box<String>, #[oauth1(fmt = fm, skip_if = str::is_empty)] c: Option<String> }")
    a("slice_fmt", FN + "D struct R { #[oauth1(fmt = fm, skip_if = <[u8]>::is_empty)] a: Vec<u8>, #[oauth1(fmt = fm, skip_if = Vec::is_empty)] b: Vec<u8>, #[oauth1(fmt = fm, skip_if = Vec::<u8>::is_empty)] c: Vec<u8> }")
    a("debug_fmt", "D struct R<T: core::fmt::Debug> { #[oauth1(fmt = core::fmt::Debug::fmt)] a: T, #[oauth1(fmt = <T as core::fmt::Debug>::fmt)] b: T, #[oauth1(fmt = core::fmt::LowerHex::fmt)] c: u8, #[oauth1(fmt = core::fmt::Debug::fmt, option = false)] d: Option<T> }")
    a("qualified_functions", "struct V;\ntrait Tr { fn f(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result; fn s(&self) -> bool; }\nimpl Tr for V { fn f(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } fn s(&self) -> bool { true } }\nD struct R { #[oauth1(fmt = Tr::f, skip_if = Tr::s)] a: V, #[oauth1(fmt = <V as Tr>::f, skip_if = <V as Tr>::s)] b: V, #[oauth1(fmt = V::f, skip_if = V::s)] c: Option<V> }")
    a("self_functions", "D struct R<T> { a: T, #[oauth1(fmt = Self::f, skip_if = Self::s)] b: u8 }\nimpl<T: core::fmt::Display> R<T> { fn f(_: &u8, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } fn s(_: &u8) -> bool { true } }")
    a("turbofish", "fn fm<A, T: ?Sized>(_: &T, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }\nD struct R { #[oauth1(fmt = fm::<u8, _>)] a: u8 }")
    a("option_none", "D struct R { #[oauth1(skip_if = Option::is_none, option = false, fmt = core::fmt::Debug::fmt)] a: Option<u8> }")
    a("option_alias", "type O<T> = Option<T>;\nD struct R { #[oauth1(option = true)] a: O<u8> }")
    a("option_path", "D struct R { #[oauth1(option = true)] a: core::option::Option<u8>, #[oauth1(option = true)] b: std::option::Option<u8>, #[oauth1(option = true)] c: ::std::option::Option<u8> }")
    a("option_path_implicitly_false", FN + "D struct R { #[oauth1(fmt = core::fmt::Debug::fmt, skip_if = core::option::Option::is_none)] a: core::option::Option<u8> }")
    a("option_own", "struct Option<T>(T);\nimpl<T> core::fmt::Display for Option<T> { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }\nD struct R { #[oauth1(option = false)] a: Option<u8> }")
    a("option_false_elsewhere", "D struct R { #[oauth1(option = false)] a: u8 }")
    a("option_of_option", "D struct R { #[oauth1(fmt = core::fmt::Debug::fmt)] a: Option<Option<u8>> }")
    a("option_of_reference", "D struct R<'a> { a: Option<&'a dyn core::fmt::Display>, b: Option<&'a str>, c: Option<Box<dyn core::fmt::Display>> }")
    a("option_by_macro", "macro_rules! m { ($t:ty, $n:ident, $l:literal) => { D struct R { a: $t, $n: $t, #[oauth1(rename = $l)] c: $t } } }\nm!(Option<u8>, b, \"x\");")
    a("fmt_by_macro", FN + "macro_rules! m { ($f:path, $s:path) => { D struct R { #[oauth1(fmt = $f, skip_if = $s)] a: Option<u8> } } }\nm!(fm, sk);")
    a("struct_by_macro", "macro_rules! m { ($($t:tt)*) => { $($t)* } }\nm! { D struct R<'a, T> { a: &'a str, #[oauth1(rename = \"T\")] t: T } }")
    a("in_macro_hygiene", "macro_rules! m { ($n:ident) => { D struct R { $n: u8, b: Option<u8> } } }\nm!(serializer);")
    a("in_function", "fn _f() { fn fm(_: &u8, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } let helper = 1u8; let tmp = helper; D struct R { #[oauth1(fmt = fm)] a: u8 } let _ = (tmp, R { a: 1 }); }")
    a("in_generic_function", "fn _f<T, S>(_: T, _: S) { D struct R<T> { a: T } let _ = R { a: 1 }; }")
    a("in_const", "const _: () = { D struct R { a: u8 } };")
    a("twice", "D struct R { a: u8 }\nD struct Q { a: u8 }\nmod inner { D struct R { a: u8 } }")
    a("visibility", "mod inner { D pub(super) struct R { pub a: u8, pub(crate) b: u8, pub(in super::super) c: Option<u8> } }")
    a("attributes", "D #[derive(Clone, Debug, PartialEq, Eq, Hash, Default)] #[repr(C)] #[doc = \"x\"] struct R { /// doc\n #[allow(unused)] a: u8, #[cfg(any())] b: (), #[cfg(all())] c: u8, #[cfg_attr(all(), oauth1(skip))] d: (), #[cfg_attr(any(), oauth1(nonsense))] e: u8 }")
    a("empty_list", "D #[oauth1()] struct R { #[oauth1()] a: u8 }")
    a("trailing_comma", "D struct R { #[oauth1(encoded,)] a: u8, #[oauth1(rename = \"x\",)] b: u8, #[oauth1(skip,)] c: () }")
    a("split_attributes", FN + "D struct R { #[oauth1(encoded)] #[oauth1(rename = \"x\")] #[oauth1(fmt = fm)] #[oauth1(skip_if = sk)] #[oauth1(option = true)] a: Option<()> }")
    a("all_attributes", FN + "D struct R { #[oauth1(encoded, rename = \"x\", fmt = fm, skip_if = sk, option = true, skip)] a: Option<()> }")
    a("unserialized_attributes", "D struct R { #[oauth1(skip, encoded, rename = \"x\")] a: () }")
    a("rename_raw_string", "D struct R { #[oauth1(rename = r\"x\")] a: u8, #[oauth1(rename = r#\"y\"#)] b: u8, #[oauth1(rename = \"\\x7a\")] c: u8 }")
    a("rename_unreserved", "D struct R { #[oauth1(rename = \"%s\")] a: u8 }" % "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~")
    a("rename_empty", "D struct R { #[oauth1(rename = \"\")] a: u8 }")
    a("rename_keyword", "D struct R { #[oauth1(rename = \"type\")] a: u8, #[oauth1(rename = \"r\")] b: u8 }")
    a("rename_swapped", "D struct R { #[oauth1(rename = \"b\")] a: u8, #[oauth1(rename = \"a\")] b: u8 }")
    a("skip_same_name", "D struct R { #[oauth1(skip)] a: (), #[oauth1(rename = \"a\")] b: u8, #[oauth1(skip, rename = \"a\")] c: () }")
    a("skip_unsafe_name", "D struct R { #[oauth1(skip)] \u00fc: (), a: u8 }")
    a("rename_unsafe_name", "D struct R { #[oauth1(rename = \"u\")] \u00fc: u8, a: u8 }")
    a("case_differs", "D struct R { a: u8, A: u8, #[oauth1(rename = \"a_\")] b: u8, _a: u8 }")
    a("oauth_names", "D struct R { oauth_callback: u8, oauth_consumer_key: u8, oauth_nonce: u8, oauth_signature_method: u8, oauth_timestamp: u8, oauth_token: u8, oauth_verifier: u8, oauth_version: u8, oauth_signature: u8, realm: u8 }")
    a("crate_path", "D #[oauth1(crate = oauth)] struct R { a: u8 }")
    a("crate_path_absolute", "D #[oauth1(crate = ::oauth)] struct R { a: u8 }")
    a("crate_path_reexport", "mod re { pub use oauth as inner; }\nD #[oauth1(crate = re::inner)] struct R { a: u8 }\nD #[oauth1(crate = self::re::inner)] struct Q { a: u8 }\nD #[oauth1(crate = crate::m_crate_path_reexport::re::inner)] struct P { a: u8 }")
    a("no_warnings", "#![deny(warnings, missing_docs, unused, nonstandard_style, rust_2018_idioms, missing_debug_implementations, unreachable_pub, unused_qualifications, unsafe_code, trivial_casts, single_use_lifetimes)]\n//! .\n"
      "/// .\npub fn fm(_: &u8, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }\n/// .\npub fn sk(_: &u8) -> bool { true }\n"
      "D #[derive(Debug)] pub(crate) struct R { #[oauth1(fmt = fm)] pub(crate) a: u8, pub(crate) b: Option<u8>, #[oauth1(skip_if = sk)] pub(crate) c: u8, #[oauth1(fmt = fm, skip_if = sk)] pub(crate) d: Option<u8> }\n/// .\npub fn f() { let r = R { a: 1, b: None, c: 2, d: None }; let _ = (r.a, r.b, r.c, r.d); }")
    a("no_warnings_plain", "#![deny(warnings, unused)]\nD pub struct R { pub a: u8, pub b: Option<u8> }")
    a("shouting", "#![deny(warnings)]\nD #[allow(nonstandard_style)] pub struct shouting { pub SHOUTING: u8, pub camelCase: Option<u8> }")
    a("many", "D struct R { %s }" % ", ".join("f%d: u8" % i for i in range(150)))
    a("used_generically", "D struct R { a: u8 }\nfn is<T: oauth::Request + ?Sized>() {}\nfn _f() { is::<R>(); is::<&R>(); is::<Option<R>>(); }")
    a("used_generically_2", "D struct R<'a, T: ?Sized> { a: &'a T }\nfn is<T: oauth::Request + ?Sized>() {}\nfn _f() { is::<R<'static, str>>(); is::<R<'_, dyn core::fmt::Display>>(); }")
    a("send_sync", "D struct R<T> { a: T }\nfn is<T: oauth::Request + Send + Sync + Copy>() {}\nimpl<T: Copy> Clone for R<T> { fn clone(&self) -> Self { *self } }\nimpl<T: Copy> Copy for R<T> {}\nfn _f() { is::<R<u8>>(); }")
    return [("m_" + n, s.replace("D struct", "#[derive(::oauth::Request)] struct").replace("D #[", "#[derive(::oauth::Request)] #[").replace("D pub", "#[derive(::oauth::Request)] pub")) for n, s in out]


def reject():
    out = []

    def r(name, src, fields=True):
        out.append((name, src))

    def field(name, attr, ty="u8"):
        r(name, "#[derive(::oauth::Request)] struct R { before: u8, #[oauth1(%s)] x: %s, zz: u8 }" % (attr, ty))

    D = "#[derive(::oauth::Request)] "
    # Not a struct with named fields.
    for i, s in enumerate(["enum R {}", "enum R { A }", "enum R { A { a: u8 } }", "enum R<T> { A { a: T }, B(u8) }", "union R { a: u8 }", "struct R;", "struct R();", "struct R(u8);", "struct R(u8, u8);",
                           "struct R<T>(T);", "struct R<'a>(&'a str) where Self: Sized;", "pub enum R { A(u8), B }", "#[derive(Clone)] struct R(Option<u8>);", "#[oauth1(crate = oauth)] struct R(u8);", "#[oauth1(crate = oauth)] enum R { A { a: u8 } }"]):
        r("shape_%d" % i, D + s)
    words = ["encoded", "skip"]
    paths = ["fmt", "skip_if"]
    lits = {"int": "1", "float": "1.0", "char": "'a'", "bytes": 'b"a"', "byte": "b'a'", "neg": "-1", "call": "f()", "closure": "|_| true", "block": "{ a }", "array": "[a]", "tuple": "(a, b)", "paren": "(\"a\")", "macro": 'concat!("a")', "ref": "&a", "index": "a[0]", "field": "a.b", "if": "if a { b } else { c }"}
    for w in words:
        field("word_%s_string" % w, w + ' = ""')
        field("word_%s_true" % w, w + ' = true')
        field("word_%s_false" % w, w + ' = false')
        field("word_%s_path" % w, w + ' = a')
        field("word_%s_list" % w, w + '()')
        field("word_%s_list2" % w, w + '(true)')
        field("word_%s_twice" % w, "%s, %s" % (w, w))
        field("word_%s_thrice" % w, "%s, rename = \"q\", %s" % (w, w))
        r("word_%s_twice_split" % w, D + "struct R { #[oauth1(%s)] #[oauth1(%s)] a: u8 }" % (w, w))
        r("word_%s_twice_far" % w, D + "struct R { #[oauth1(%s)] #[allow(unused)] #[oauth1(rename = \"q\")] #[oauth1(%s)] a: u8 }" % (w, w))
    for w in paths:
        field("path_%s_word" % w, w)
        field("path_%s_list" % w, w + "(a)")
        field("path_%s_empty" % w, w + " = ")
        field("path_%s_string" % w, w + ' = "fm"')
        field("path_%s_bool" % w, w + ' = true')
        for k, l in lits.items():
            field("path_%s_%s" % (w, k), "%s = %s" % (w, l))
        field("path_%s_twice" % w, "%s = sk, %s = sk" % (w, w))
        r("path_%s_twice_split" % w, FN + D + "struct R { #[oauth1(%s = %s)] #[oauth1(%s = %s)] a: u8 }" % (w, "fm" if w == "fmt" else "sk", w, "fm" if w == "fmt" else "sk"))
    for b in ("word", "list"):
        field("option_%s" % b, "option" + ("" if b == "word" else "(true)"))
        field("rename_%s" % b, "rename" + ("" if b == "word" else '("a")'))
        r("crate_%s" % b, D + "#[oauth1(crate%s)] struct R { a: u8 }" % ("" if b == "word" else "(oauth)"))
    for k, l in list(lits.items()) + [("string", '"true"'), ("path", "TRUE"), ("path2", "a::b")]:
        field("option_%s" % k, "option = %s" % l, "Option<u8>")
    field("option_twice", "option = true, option = true", "Option<u8>")
    field("option_twice_differs", "option = true, option = false", "Option<u8>")
    r("option_twice_split", D + "struct R { #[oauth1(option = true)] #[oauth1(option = true)] a: Option<u8> }")
    for k, l in list(lits.items()) + [("bool", "true"), ("path", "a"), ("path2", "a::b"), ("cstr", 'c"a"')]:
        field("rename_%s" % k, "rename = %s" % l)
    field("rename_twice", 'rename = "a", rename = "b"')
    field("rename_twice_same", 'rename = "a", rename = "a"')
    r("rename_twice_split", D + 'struct R { #[oauth1(rename = "a")] #[oauth1(rename = "b")] a: u8 }')
    for k, l in list(lits.items()) + [("bool", "true"), ("string", '"oauth"')]:
        r("crate_%s" % k, D + "#[oauth1(crate = %s)] struct R { a: u8 }" % l)
    r("crate_twice", D + "#[oauth1(crate = oauth, crate = oauth)] struct R { a: u8 }")
    r("crate_twice_split", D + "#[oauth1(crate = oauth)] #[oauth1(crate = oauth)] struct R { a: u8 }")
    # Names that no attribute has; those of fields on the container, and the other way round.
    unknown = ["unknown", "Skip", "SKIP", "skips", "ski", "skip_", "skipif", "skip_unless", "encode", "encoded_", "format", "Fmt", "name", "renamed", "optional", "options", "default", "flatten", "with", "sk\u0131p", "_", "self", "super", "oauth1", "serialize", "a::skip", "::skip", "skip::a", "oauth::skip", "crate::skip"]
    for i, u in enumerate(unknown):
        field("unknown_word_%d" % i, u)
        field("unknown_value_%d" % i, u + ' = "a"')
        field("unknown_list_%d" % i, u + '("a")')
        field("unknown_after_%d" % i, "encoded, " + u)
        if "skip" != u:
            r("unknown_container_%d" % i, D + "#[oauth1(%s)] struct R { a: u8 }" % u)
            r("unknown_container_value_%d" % i, D + "#[oauth1(%s = a)] struct R { a: u8 }" % u)
    for w, v in (("skip", "skip"), ("encoded", "encoded"), ("fmt", "fmt = fm"), ("skip_if", "skip_if = sk"), ("option", "option = true"), ("rename", 'rename = "a"')):
        r("on_container_%s" % w, FN + D + "#[oauth1(%s)] struct R { a: u8 }" % v)
        r("on_container_%s_2" % w, FN + D + "#[oauth1(crate = oauth, %s)] struct R { a: u8 }" % v)
    field("crate_on_field", "crate = oauth")
    field("unknown_on_skipped", "skip, unknown")
    field("unknown_on_option", "unknown", "Option<u8>")
    # Malformed lists.
    for i, m in enumerate(["#[oauth1]", '#[oauth1 = ""]', "#[oauth1 = true]", '#[oauth1("")]', "#[oauth1(1)]", "#[oauth1(skip skip)]", "#[oauth1(skip encoded)]", "#[oauth1(rename = \"a\" skip)]", '#[oauth1(rename = )]', '#[oauth1(rename "a")]',
                           "#[oauth1(, skip)]", "#[oauth1(skip,, encoded)]", "#[oauth1(skip,,)]", "#[oauth1(,)]", "#[oauth1(skip; encoded)]", "#[oauth1((skip))]", "#[oauth1([skip])]", "#[oauth1({skip})]", "#[oauth1(!skip)]", "#[oauth1(skip = )]",
                           "#[oauth1(fmt == fm)]", "#[oauth1(rename = \"a\" = \"b\")]", "#[oauth1(rename += \"a\")]", "#[oauth1(= \"a\")]", "#[oauth1(skip.a)]", "#[oauth1(fmt = fm,, )]", "#[oauth1(fmt: fm)]", "#[oauth1(rename => \"a\")]"]):
        r("malformed_%d" % i, FN + D + "struct R { a: u8, %s b: u8, c: u8 }" % m)
        r("malformed_container_%d" % i, FN + D + m.replace("skip", "crate") + " struct R { a: u8 }")
    # Names that are not URI-safe.
    safe = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"
    for c in range(1, 128):
        if chr(c) not in safe:
            for k, t in (("only", "%s"), ("first", "%sab"), ("mid", "a%sb"), ("last", "ab%s")):
                if k != "only" and c not in (0x20, 0x21, 0x25, 0x26, 0x2b, 0x2f, 0x3a, 0x3d, 0x40, 0x5b, 0x60, 0x7b, 0x7f):
                    continue
                r("name_%02x_%s" % (c, k), D + 'struct R { before: u8, #[oauth1(rename = "%s")] x: u8, zz: u8 }' % (t % ("\\x%02x" % c)))
    for k, s in (("nul", "\\0"), ("u80", "\\u{80}"), ("ue9", "\\u{e9}"), ("u1f600", "\\u{1f600}"), ("uff21", "\\u{ff21}"), ("fullwidth_digit", "\\u{ff11}"), ("arabic_digit", "\\u{661}"), ("combining", "a\\u{301}"), ("nbsp", "a\\u{a0}"), ("zwj", "a\\u{200d}b"),
                 ("encoded", "a%20b"), ("encoded2", "%41"), ("rtl", "a\\u{5d0}"), ("long", "x" * 300 + "/")):
        r("name_%s" % k, D + 'struct R { before: u8, #[oauth1(rename = "%s")] x: u8, zz: u8 }' % s)
    for k, s in (("e9", "caf\u00e9"), ("han", "\u6f22"), ("cyr", "\u0430"), ("greek", "a\u03b1"), ("under", "_\u00e9")):
        r("ident_%s" % k, D + "struct R { before: u8, %s: u8, zz: u8 }" % s)
        r("ident_opt_%s" % k, D + "struct R { before: u8, %s: Option<u8> }" % s)
        r("ident_only_%s" % k, D + "struct R { %s: u8 }" % s)
    r("ident_raw", D + "struct R { r#\u00e9: u8 }")
    # Two serialized fields of the same effective name.
    dup = [
        'a: u8, #[oauth1(rename = "a")] b: u8', '#[oauth1(rename = "b")] a: u8, b: u8', '#[oauth1(rename = "c")] a: u8, #[oauth1(rename = "c")] b: u8',
        'r#type: u8, #[oauth1(rename = "type")] b: u8', '#[oauth1(rename = "type")] b: u8, r#type: u8',
        'a: u8, b: u8, c: u8, #[oauth1(rename = "a")] d: u8, e: u8', 'a: u8, m: u8, z: u8, #[oauth1(rename = "m")] y: u8',
        '#[oauth1(rename = "x")] a: u8, #[oauth1(rename = "x")] b: u8, #[oauth1(rename = "x")] c: u8',
        'a: Option<u8>, #[oauth1(rename = "a")] b: Option<u8>', 'a: u8, #[oauth1(rename = "a", encoded)] b: u8', 'a: u8, #[oauth1(rename = "a", skip_if = sk)] b: u8', 'a: u8, #[oauth1(rename = "a", fmt = fm)] b: u8',
        'a: u8, #[oauth1(skip, rename = "a")] b: u8, #[oauth1(rename = "a")] c: u8', '#[oauth1(skip)] x: u8, #[oauth1(rename = "x")] b: u8, #[oauth1(rename = "x")] c: u8',
        'a: u8, #[oauth1(rename = "a")] b: u8, #[oauth1(skip, rename = "a")] c: u8',
        'oauth_token: u8, #[oauth1(rename = "oauth_token")] b: u8', 'oauth_z: u8, #[oauth1(rename = "oauth_z")] b: u8',
        '#[oauth1(rename = "")] a: u8, #[oauth1(rename = "")] b: u8', '#[oauth1(rename = "\\x61")] b: u8, a: u8', '#[oauth1(rename = r"a")] b: u8, a: u8',
        'a: u8, #[oauth1(rename = "a", option = true)] b: Option<u8>', 'a: u8, #[oauth1(rename = "a")] b: Option<u8>',
        "%s, #[oauth1(rename = \"f7\")] last: u8" % ", ".join("f%d: u8" % i for i in range(60)),
        "#[oauth1(rename = \"f59\")] first: u8, %s" % ", ".join("f%d: u8" % i for i in range(60)),
        '#[oauth1(rename = "zz")] a: u8, b: u8, #[oauth1(rename = "zz")] c: u8, d: u8',
        '#[oauth1(rename = "~")] a: u8, b: u8, #[oauth1(rename = "~")] c: u8',
    ]
    for i, d in enumerate(dup):
        r("duplicate_%d" % i, FN + D + "struct R { %s }" % d)
    r("duplicate_generic", FN + D + 'struct R<T> { a: T, #[oauth1(rename = "a")] b: T }')
    # The position of the fault among good fields.
    for i in range(6):
        fs = ["f%d: u8" % j for j in range(6)]
        fs[i] = "#[oauth1(nope)] " + fs[i]
        r("position_unknown_%d" % i, D + "struct R { %s }" % ", ".join(fs))
        fs = ["f%d: u8" % j for j in range(6)]
        fs[i] = '#[oauth1(rename = "a b")] ' + fs[i]
        r("position_unsafe_%d" % i, D + "struct R { %s }" % ", ".join(fs))
        fs = ["f%d: u8" % j for j in range(6)]
        fs[i] = "#[oauth1(encoded, encoded)] " + fs[i]
        r("position_repeated_%d" % i, D + "struct R { %s }" % ", ".join(fs))
    return [("m_" + n, s) for n, s in out]
