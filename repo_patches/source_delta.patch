From 049cf382ff28783bb773e3fc7565b8fd299cc386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 01/11] fix: write the request's parameters to the authorized
 form/query string

---
 oauth1-request/src/serializer/auth.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/oauth1-request/src/serializer/auth.rs b/oauth1-request/src/serializer/auth.rs
index 8b3ffc3..e7b55af 100644
--- a/oauth1-request/src/serializer/auth.rs
+++ b/oauth1-request/src/serializer/auth.rs
@@ -297,12 +297,18 @@ impl<'a, SM: SignatureMethod, W: Write> Serializer for Authorizer<'a, SM, W> {
 
     fn serialize_parameter<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, DoublePercentEncode(value));
     }
 
     fn serialize_parameter_encoded<V: Display>(&mut self, key: &str, value: V) {
         self.check_dictionary_order(key);
+        if let Data::Urlencode(ref mut encoder) = self.data {
+            encoder.serialize_parameter_encoded(key, &value);
+        }
         self.sign_delimiter();
         self.sign.parameter(key, PercentEncode(value));
     }
-- 
2.43.0


From 8a9fe8bcc84408397a5e9a6aa6379210a9490610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 02/11] fix: URL-encode the signature of the PLAINTEXT method

---
 oauth1-request/src/signature_method/plaintext.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index 169ff51..c5acf6d 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -5,6 +5,8 @@
 use core::fmt::{self, Debug, Display, Formatter, Write};
 use core::marker::PhantomData;
 
+use crate::util::PercentEncode;
+
 use super::{write_signing_key, Sign, SignatureMethod};
 
 /// The `PLAINTEXT` signature method.
@@ -16,7 +18,8 @@ pub struct Plaintext<
 }
 
 cfg_type_param_hack! {
-    /// A `Sign` implementation that just returns the signing key used to construct it.
+    /// A `Sign` implementation that just returns the URL-encoded representation of the signing key
+    /// used to construct it.
     #[derive(Clone, Debug)]
     pub struct PlaintextSign<
         #[cfg(feature = "alloc")] W = alloc::string::String,
@@ -91,8 +94,16 @@ where
     type Sign = PlaintextSign<W>;
 
     fn sign_with(self, client_secret: &str, token_secret: Option<&str>) -> Self::Sign {
+        struct SigningKey<'a>(&'a str, Option<&'a str>);
+        impl<'a> Display for SigningKey<'a> {
+            fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+                write_signing_key(f, self.0, self.1)
+            }
+        }
+
         let mut signing_key = W::default();
-        write_signing_key(&mut signing_key, client_secret, token_secret).unwrap();
+        let key = SigningKey(client_secret, token_secret);
+        write!(signing_key, "{}", PercentEncode(key)).unwrap();
         PlaintextSign { signing_key }
     }
 }
-- 
2.43.0


From 72544660dd23bc237024299e58187f58e968943b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 03/11] fix: delegate Sign::consumer_key in the implementation
 for Either

---
 oauth1-request/src/signature_method/either.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oauth1-request/src/signature_method/either.rs b/oauth1-request/src/signature_method/either.rs
index 67945b6..437794b 100644
--- a/oauth1-request/src/signature_method/either.rs
+++ b/oauth1-request/src/signature_method/either.rs
@@ -62,6 +62,7 @@ impl<L: Sign, R: Sign> Sign for Either<L, R> {
 
     delegate! {
         fn callback[V: Display](&mut self, value: V);
+        fn consumer_key[V: Display](&mut self, value: V);
         fn nonce[V: Display](&mut self, value: V);
         fn use_nonce(&self) -> bool;
         fn signature_method(&mut self);
-- 
2.43.0


From bb0ae2535dfd5f99389232566cf2dd1d0e743268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:08 +0000
Subject: [PATCH 04/11] fix: sort ParameterList by the percent-encoded values

---
 oauth1-request/src/request/parameter_list.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oauth1-request/src/request/parameter_list.rs b/oauth1-request/src/request/parameter_list.rs
index 425b347..1a4fc8c 100644
--- a/oauth1-request/src/request/parameter_list.rs
+++ b/oauth1-request/src/request/parameter_list.rs
@@ -8,6 +8,7 @@ use core::marker::PhantomData;
 
 use super::Request;
 use crate::serializer::Serializer;
+use crate::util::PercentEncode;
 
 /// A [`Request`] with dynamic list of key-value parameter pairs.
 ///
@@ -240,7 +241,8 @@ where
     let (ref kr, ref vr) = *rhs.borrow();
     return inner(kl.as_ref(), vl, kr.as_ref(), vr);
     fn inner<V: Display>(kl: &str, vl: &V, kr: &str, vr: &V) -> Ordering {
-        (kl, fmt_cmp::Cmp(vl)).cmp(&(kr, fmt_cmp::Cmp(vr)))
+        // Values are compared in their encoded form (RFC 5849 section 3.4.1.3.2).
+        (kl, fmt_cmp::Cmp(PercentEncode(vl))).cmp(&(kr, fmt_cmp::Cmp(PercentEncode(vr))))
     }
 }
 
-- 
2.43.0


From fea0059d56ea4f2fea97a0079012be5ca633229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:13 +0000
Subject: [PATCH 05/11] fix: access raw identifier fields by their raw names in
 the derived code

---
 oauth1-request-derive/src/field.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/oauth1-request-derive/src/field.rs b/oauth1-request-derive/src/field.rs
index 78f6a2c..2a4b26f 100644
--- a/oauth1-request-derive/src/field.rs
+++ b/oauth1-request-derive/src/field.rs
@@ -9,6 +9,8 @@ use crate::ctxt::Ctxt;
 
 pub struct Field {
     pub ident: Ident,
+    /// `ident` without the `r#` prefix.
+    name: Ident,
     pub ty: Type,
     pub meta: FieldMeta,
 }
@@ -35,8 +37,14 @@ impl Field {
             attrs, ident, ty, ..
         } = field;
         let meta = FieldMeta::new(attrs, cx);
-        let ident = ident.unwrap().unraw();
-        Self { ident, ty, meta }
+        let ident = ident.unwrap();
+        let name = ident.unraw();
+        Self {
+            ident,
+            name,
+            ty,
+            meta,
+        }
     }
 
     /// Returns the (`rename`-ed) field name.
@@ -44,7 +52,7 @@ impl Field {
         if let Some(ref name) = self.meta.rename {
             Name::Renamed(&name.0)
         } else {
-            Name::Original(&self.ident)
+            Name::Original(&self.name)
         }
     }
 }
-- 
2.43.0


From ec1b119eeeca35d77d159dd38a005e969adb046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:34 +0000
Subject: [PATCH 06/11] fix: do not count skipped fields as duplicate
 parameters in derive

---
 oauth1-request-derive/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oauth1-request-derive/src/lib.rs b/oauth1-request-derive/src/lib.rs
index 50e4d65..0b76c08 100644
--- a/oauth1-request-derive/src/lib.rs
+++ b/oauth1-request-derive/src/lib.rs
@@ -78,7 +78,8 @@ fn expand_derive_oauth1_authorize(input: DeriveInput) -> TokenStream {
         .collect();
 
     fields.sort_by_cached_key(|f| f.name().string_value());
-    fields.iter().fold(String::new(), |prev_name, f| {
+    let serialized = fields.iter().filter(|f| !f.meta.skip);
+    serialized.fold(String::new(), |prev_name, f| {
         let name = f.name();
         let (name, span) = (name.string_value(), name.span());
         if name == prev_name {
-- 
2.43.0


From d09ca0c2e03ee4d99d19a2540d36e28a84190ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 07/11] fix: reject field names that are not URI-safe in derive

---
 oauth1-request-derive/src/lib.rs  |  4 ++++
 oauth1-request-derive/src/meta.rs | 13 ++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/oauth1-request-derive/src/lib.rs b/oauth1-request-derive/src/lib.rs
index 0b76c08..8831952 100644
--- a/oauth1-request-derive/src/lib.rs
+++ b/oauth1-request-derive/src/lib.rs
@@ -36,6 +36,7 @@ use syn::{
 use self::container::ContainerMeta;
 use self::ctxt::Ctxt;
 use self::field::Field;
+use self::meta::is_uri_safe;
 use self::method_body::MethodBody;
 
 /// A derive macro for [`oauth1_request::Request`][Request] trait.
@@ -82,6 +83,9 @@ fn expand_derive_oauth1_authorize(input: DeriveInput) -> TokenStream {
     serialized.fold(String::new(), |prev_name, f| {
         let name = f.name();
         let (name, span) = (name.string_value(), name.span());
+        if !name.bytes().all(is_uri_safe) {
+            cx.add_error_message(span, "parameter name must be URI-safe");
+        }
         if name == prev_name {
             cx.add_error_message(span, format!("duplicate parameter \"{}\"", name));
         }
diff --git a/oauth1-request-derive/src/meta.rs b/oauth1-request-derive/src/meta.rs
index 6bb3fb6..b9fb15e 100644
--- a/oauth1-request-derive/src/meta.rs
+++ b/oauth1-request-derive/src/meta.rs
@@ -241,18 +241,17 @@ impl FromExprExt for UriSafe {
         } else {
             return Err(syn::Error::new(expr.span(), "expected string literal"));
         };
-        for b in s.value().as_bytes() {
-            match b {
-                b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'-' | b'.' | b'_' | b'~' => (),
-                _ => {
-                    return Err(syn::Error::new(s.span(), "parameter name must be URI-safe"));
-                }
-            }
+        if !s.value().bytes().all(is_uri_safe) {
+            return Err(syn::Error::new(s.span(), "parameter name must be URI-safe"));
         }
         Ok(UriSafe(s))
     }
 }
 
+pub fn is_uri_safe(b: u8) -> bool {
+    matches!(b, b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'-' | b'.' | b'_' | b'~')
+}
+
 /// Joins two `Span`s or returns the first one if failed.
 fn join(first: Span, last: Span) -> Span {
     first.join(last).unwrap_or(first)
-- 
2.43.0


From 7a569b4d97f15fe4700136a55975d94a10224cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 08/11] fix: do not print signing keys in Debug output

---
 .../src/signature_method/plaintext.rs         | 11 +++++++-
 .../src/signature_method/rsa_sha1.rs          | 25 ++++++++++++++++---
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/oauth1-request/src/signature_method/plaintext.rs b/oauth1-request/src/signature_method/plaintext.rs
index c5acf6d..45f54eb 100644
--- a/oauth1-request/src/signature_method/plaintext.rs
+++ b/oauth1-request/src/signature_method/plaintext.rs
@@ -20,7 +20,7 @@ pub struct Plaintext<
 cfg_type_param_hack! {
     /// A `Sign` implementation that just returns the URL-encoded representation of the signing key
     /// used to construct it.
-    #[derive(Clone, Debug)]
+    #[derive(Clone)]
     pub struct PlaintextSign<
         #[cfg(feature = "alloc")] W = alloc::string::String,
         #[cfg(not(feature = "alloc"))] W,
@@ -108,6 +108,15 @@ where
     }
 }
 
+impl<W> Debug for PlaintextSign<W> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        // Don't print the secrets.
+        f.debug_struct("PlaintextSign")
+            .field("signing_key", &format_args!("<hidden>"))
+            .finish()
+    }
+}
+
 impl<W> Sign for PlaintextSign<W>
 where
     W: Display + Write,
diff --git a/oauth1-request/src/signature_method/rsa_sha1.rs b/oauth1-request/src/signature_method/rsa_sha1.rs
index 30d1cc4..36afd73 100644
--- a/oauth1-request/src/signature_method/rsa_sha1.rs
+++ b/oauth1-request/src/signature_method/rsa_sha1.rs
@@ -6,7 +6,7 @@ pub use self::rsa::pkcs8::DecodePrivateKey;
 pub use self::rsa::RsaPrivateKey;
 
 use alloc::vec::Vec;
-use core::fmt::{self, Display, Formatter};
+use core::fmt::{self, Debug, Display, Formatter};
 
 use digest::Digest;
 use sha1::Sha1;
@@ -15,14 +15,14 @@ use super::digest_common::{Base64PercentEncodeDisplay, UpdateSign};
 use super::{Sign, SignatureMethod};
 
 /// The `RSA-SHA1` signature method.
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 #[repr(transparent)]
 pub struct RsaSha1 {
     key: RsaPrivateKey,
 }
 
 /// A type that signs a signature base string with the RSA-SHA1 signature algorithm.
-#[derive(Clone, Debug)]
+#[derive(Clone)]
 pub struct RsaSha1Sign<K = RsaPrivateKey> {
     inner: UpdateSign<Sha1>,
     key: K,
@@ -40,6 +40,25 @@ impl RsaSha1 {
     }
 }
 
+impl Debug for RsaSha1 {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        // Don't print the private key.
+        f.debug_struct("RsaSha1")
+            .field("key", &format_args!("<hidden>"))
+            .finish()
+    }
+}
+
+impl<K> Debug for RsaSha1Sign<K> {
+    fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
+        // Don't print the private key.
+        f.debug_struct("RsaSha1Sign")
+            .field("inner", &self.inner)
+            .field("key", &format_args!("<hidden>"))
+            .finish()
+    }
+}
+
 impl From<RsaPrivateKey> for RsaSha1 {
     fn from(key: RsaPrivateKey) -> Self {
         RsaSha1::new(key)
-- 
2.43.0


From 0fe0fbf1e9c1f47b8a97f3a90716bf76a63e62ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:50 +0000
Subject: [PATCH 09/11] fix: do not depend on prelude names in the code derived
 for fmt and skip_if

---
 .../src/method_body/helper.rs                 | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/oauth1-request-derive/src/method_body/helper.rs b/oauth1-request-derive/src/method_body/helper.rs
index 0804b11..3e3dc03 100644
--- a/oauth1-request-derive/src/method_body/helper.rs
+++ b/oauth1-request-derive/src/method_body/helper.rs
@@ -38,9 +38,9 @@ def_tokens! {FmtHelper;
 
     struct Fmt<T, F>(T, F);
 
-    impl<T: Copy, F> Display for Fmt<T, F>
+    impl<T: ::core::marker::Copy, F> Display for Fmt<T, F>
     where
-        F: Fn(T, &mut Formatter<'_>) -> Result,
+        F: ::core::ops::Fn(T, &mut Formatter<'_>) -> Result,
     {
         fn fmt(&self, f: &mut Formatter<'_>) -> Result {
             self.1(self.0, f)
@@ -50,16 +50,19 @@ def_tokens! {FmtHelper;
     impl DeriveRequestAssertion {
         // The order of arguments is imoprtant here.
         // If you reverse the order, deref coercions won't work for `t` (see the test below).
-        fn fmt<'a, F, T: ?Sized>(&self, f: F, t: &'a T) -> Fmt<&'a T, F>
+        fn fmt<'a, F, T: ?::core::marker::Sized>(&self, f: F, t: &'a T) -> Fmt<&'a T, F>
         where
-            F: Fn(&T, &mut Formatter<'_>) -> Result,
+            F: ::core::ops::Fn(&T, &mut Formatter<'_>) -> Result,
         {
             Fmt(t, f)
         }
 
-        fn fmt_impls_fn<F, T: ?Sized>(&self, f: F) -> impl Fn(&T, &mut Formatter<'_>) -> Result
+        fn fmt_impls_fn<F, T: ?::core::marker::Sized>(
+            &self,
+            f: F,
+        ) -> impl ::core::ops::Fn(&T, &mut Formatter<'_>) -> Result
         where
-            F: Fn(&T, &mut Formatter<'_>) -> Result,
+            F: ::core::ops::Fn(&T, &mut Formatter<'_>) -> Result,
         {
             f
         }
@@ -68,9 +71,12 @@ def_tokens! {FmtHelper;
 
 def_tokens! {SkipIfHelper;
     impl DeriveRequestAssertion {
-        fn skip_if_impls_fn<F, T: ?Sized>(&self, f: F) -> impl Fn(&T) -> bool
+        fn skip_if_impls_fn<F, T: ?::core::marker::Sized>(
+            &self,
+            f: F,
+        ) -> impl ::core::ops::Fn(&T) -> ::core::primitive::bool
         where
-            F: Fn(&T) -> bool,
+            F: ::core::ops::Fn(&T) -> ::core::primitive::bool,
         {
             f
         }
-- 
2.43.0


From e1811a8ef4a6e4a40b090663d12ab286a369dce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:17 +0000
Subject: [PATCH 10/11] fix: accept an empty parameter name in derive

---
 oauth1-request-derive/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oauth1-request-derive/src/lib.rs b/oauth1-request-derive/src/lib.rs
index 8831952..686447c 100644
--- a/oauth1-request-derive/src/lib.rs
+++ b/oauth1-request-derive/src/lib.rs
@@ -80,16 +80,16 @@ fn expand_derive_oauth1_authorize(input: DeriveInput) -> TokenStream {
 
     fields.sort_by_cached_key(|f| f.name().string_value());
     let serialized = fields.iter().filter(|f| !f.meta.skip);
-    serialized.fold(String::new(), |prev_name, f| {
+    serialized.fold(None, |prev_name: Option<String>, f| {
         let name = f.name();
         let (name, span) = (name.string_value(), name.span());
         if !name.bytes().all(is_uri_safe) {
             cx.add_error_message(span, "parameter name must be URI-safe");
         }
-        if name == prev_name {
+        if prev_name.as_ref() == Some(&name) {
             cx.add_error_message(span, format!("duplicate parameter \"{}\"", name));
         }
-        name
+        Some(name)
     });
 
     let meta = ContainerMeta::new(input.attrs, &mut cx);
-- 
2.43.0


From 70b60171a7e233af43d16ca652337712a0a04d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:15 +0000
Subject: [PATCH 11/11] fix: accept attribute values interpolated through
 macro_rules! in derive

---
 oauth1-request-derive/src/meta.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/oauth1-request-derive/src/meta.rs b/oauth1-request-derive/src/meta.rs
index b9fb15e..06ce8b3 100644
--- a/oauth1-request-derive/src/meta.rs
+++ b/oauth1-request-derive/src/meta.rs
@@ -209,6 +209,7 @@ impl Parse for Meta {
 
 impl FromExprExt for ExprPath {
     fn from_expr(expr: Expr) -> syn::Result<Self> {
+        let expr = ungroup(expr);
         if let Expr::Path(path) = expr {
             Ok(path)
         } else {
@@ -219,6 +220,7 @@ impl FromExprExt for ExprPath {
 
 impl FromExprExt for LitBool {
     fn from_expr(expr: Expr) -> syn::Result<Self> {
+        let expr = ungroup(expr);
         if let Expr::Lit(ExprLit {
             lit: Lit::Bool(lit),
             ..
@@ -233,6 +235,7 @@ impl FromExprExt for LitBool {
 
 impl FromExprExt for UriSafe {
     fn from_expr(expr: Expr) -> syn::Result<Self> {
+        let expr = ungroup(expr);
         let s = if let Expr::Lit(ExprLit {
             lit: Lit::Str(lit), ..
         }) = expr
@@ -248,6 +251,14 @@ impl FromExprExt for UriSafe {
     }
 }
 
+/// Strips the `Group`s that enclose an expression interpolated through `macro_rules!`.
+fn ungroup(mut expr: Expr) -> Expr {
+    while let Expr::Group(group) = expr {
+        expr = *group.expr;
+    }
+    expr
+}
+
 pub fn is_uri_safe(b: u8) -> bool {
     matches!(b, b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z' | b'-' | b'.' | b'_' | b'~')
 }
-- 
2.43.0

