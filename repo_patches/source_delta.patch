From 0bad848ec17e8d78bfae7a1f90900e8f7146a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 01/11] fix: try_setter on a field with a raw identifier
 panicked

---
 derive_builder_core/src/setter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index 392221f..c781f1d 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -149,7 +149,7 @@ impl<'a> ToTokens for Setter<'a> {
             if self.try_setter {
                 let try_ty_params =
                     quote!(<VALUE: #crate_root::export::core::convert::TryInto<#ty>>);
-                let try_ident = syn::Ident::new(&format!("try_{}", ident), Span::call_site());
+                let try_ident = format_ident!("try_{}", ident, span = Span::call_site());
 
                 let mut converted = quote! {converted};
                 if builder_field_is_option {
-- 
2.43.0


From 1cd51027119d865c1590356c356dd9d114863649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 02/11] fix: `setter(custom = false)` on a skipped field
 panicked

---
 .../src/macro_options/darling_opts.rs              | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 3894b78..f09229b 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -720,12 +720,16 @@ pub struct FieldWithDefaults<'a> {
 /// parent struct's configuration.
 impl<'a> FieldWithDefaults<'a> {
     /// Check if this field should emit a setter.
+    ///
+    /// A skipped field is not stored in the builder, so it never has one.
     pub fn setter_enabled(&self) -> bool {
-        self.field
-            .setter
-            .setter_enabled()
-            .or_else(|| self.parent.setter.enabled())
-            .unwrap_or(true)
+        self.field_enabled()
+            && self
+                .field
+                .setter
+                .setter_enabled()
+                .or_else(|| self.parent.setter.enabled())
+                .unwrap_or(true)
     }
 
     pub fn field_enabled(&self) -> bool {
-- 
2.43.0


From f17f15011a6f3d12e04b4c274825bcfffa2b9249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 03/11] fix: `derive(Clone)` on a builder that needs Clone
 derived it twice

---
 derive_builder_core/src/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive_builder_core/src/builder.rs b/derive_builder_core/src/builder.rs
index 72824f2..988103d 100644
--- a/derive_builder_core/src/builder.rs
+++ b/derive_builder_core/src/builder.rs
@@ -172,7 +172,7 @@ impl<'a> ToTokens for Builder<'a> {
                 let clone_trait: Path = parse_quote!(Clone);
 
                 let mut traits: Punctuated<&Path, Token![,]> = Default::default();
-                if self.must_derive_clone {
+                if self.must_derive_clone && !self.derives.iter().any(|t| t.is_ident("Clone")) {
                     traits.push(&clone_trait);
                 }
                 traits.extend(self.derives);
-- 
2.43.0


From ee3fc96ede55eab353ff86d7e31cbf98356704c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 04/11] fix: build moved fields with an owned setter out of a
 borrowed builder

---
 derive_builder_core/src/macro_options/darling_opts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index f09229b..b7f4a1a 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -887,7 +887,7 @@ impl<'a> FieldWithDefaults<'a> {
             crate_root: &self.parent.crate_root,
             field_enabled: self.field_enabled(),
             field_ident: self.field_ident(),
-            builder_pattern: self.pattern(),
+            builder_pattern: self.parent.pattern,
             default_value: self.field.default.as_ref(),
             use_default_struct: self.use_parent_default(),
             conversion: self.conversion(),
-- 
2.43.0


From e89f367c44d2cc68bd7444420e2a5a1d6fbbb236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 05/11] fix: code in a string that ends in a line comment was
 rejected

---
 derive_builder_core/src/block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index 0d53cba..45cd272 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -34,7 +34,8 @@ impl TryFrom<&'_ LitStr> for BlockContents {
     fn try_from(s: &LitStr) -> Result<Self, Self::Error> {
         let mut block_str = s.value();
         block_str.insert(0, '{');
-        block_str.push('}');
+        // The contents may end in a line comment, which must not swallow the brace.
+        block_str.push_str("\n}");
         LitStr::new(&block_str, s.span()).parse().map(Self)
     }
 }
-- 
2.43.0


From 418f66e0e669388f6ef5f6b61b720ba949e850bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 06/11] fix: deriving on a union panicked instead of reporting
 an error

---
 derive_builder_core/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/derive_builder_core/src/lib.rs b/derive_builder_core/src/lib.rs
index 6d2e71e..da77db1 100644
--- a/derive_builder_core/src/lib.rs
+++ b/derive_builder_core/src/lib.rs
@@ -55,6 +55,16 @@ const DEFAULT_STRUCT_NAME: &str = "__default";
 
 /// Derive a builder for a struct
 pub fn builder_for_struct(ast: syn::DeriveInput) -> proc_macro2::TokenStream {
+    // `darling` panics on unions
+    if let syn::Data::Union(_) = ast.data {
+        return darling::Error::unsupported_shape_with_expected(
+            "union",
+            &"struct with named fields",
+        )
+        .with_span(&ast.ident)
+        .write_errors();
+    }
+
     let opts = match macro_options::Options::from_derive_input(&ast) {
         Ok(val) => val,
         Err(err) => {
-- 
2.43.0


From 3f2243a227b3b1ee444347d7a5c75bbe1d467091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:24 +0000
Subject: [PATCH 07/11] fix: malformed content of a pass-through attribute
 panicked

---
 derive_builder_core/src/macro_options/darling_opts.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index b7f4a1a..4f2454b 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -6,7 +6,7 @@ use crate::BuildMethod;
 use darling::util::{Flag, PathList, SpannedValue};
 use darling::{Error, FromMeta};
 use proc_macro2::Span;
-use syn::{spanned::Spanned, Attribute, Generics, Ident, Meta, Path};
+use syn::{parse::Parser, spanned::Spanned, Attribute, Generics, Ident, Meta, Path};
 
 use crate::{
     BlockContents, Builder, BuilderField, BuilderFieldType, BuilderPattern, DefaultExpression,
@@ -484,7 +484,10 @@ fn unnest_from_one_attribute(attr: syn::Attribute) -> darling::Result<Attribute>
         Meta::NameValue(_) => Err(Error::unsupported_format("name-value").with_span(&meta)),
         Meta::List(list) => {
             let inner = list.tokens;
-            Ok(parse_quote_spanned!(original_span=> #pound [ #inner ]))
+            // Not `parse_quote_spanned!`, which panics if `inner` is not a valid attribute
+            let outer = quote_spanned!(original_span=> #pound [ #inner ]);
+            let mut attrs = Attribute::parse_outer.parse2(outer)?;
+            Ok(attrs.remove(0))
         }
     }
 }
-- 
2.43.0


From 43f1c373db1b34dd7acfe268c27cbef473aecf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 08/11] fix: strip_option recognizes an Option that a
 macro_rules macro got as a type fragment

---
 derive_builder_core/src/setter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/derive_builder_core/src/setter.rs b/derive_builder_core/src/setter.rs
index c781f1d..d2dab11 100644
--- a/derive_builder_core/src/setter.rs
+++ b/derive_builder_core/src/setter.rs
@@ -240,6 +240,8 @@ fn extract_type_from_option(ty: &syn::Type) -> Option<&syn::Type> {
     fn extract_type_path(ty: &syn::Type) -> Option<&Path> {
         match *ty {
             syn::Type::Path(ref typepath) if typepath.qself.is_none() => Some(&typepath.path),
+            // A type that a declarative macro got as `$ty:ty` comes in an invisible group.
+            syn::Type::Group(ref group) => extract_type_path(&group.elem),
             _ => None,
         }
     }
-- 
2.43.0


From 8f720e607f4c52a6ef8487669fe33d48a2021bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:08 +0000
Subject: [PATCH 09/11] fix: a validate path that a macro_rules macro got as a
 fragment finds the builder

---
 derive_builder_core/src/build_method.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/derive_builder_core/src/build_method.rs b/derive_builder_core/src/build_method.rs
index 55150b4..ccbf10a 100644
--- a/derive_builder_core/src/build_method.rs
+++ b/derive_builder_core/src/build_method.rs
@@ -85,10 +85,12 @@ impl<'a> ToTokens for BuildMethod<'a> {
             let ident = syn::Ident::new(DEFAULT_STRUCT_NAME, Span::call_site());
             quote!(let #ident: #target_ty #target_ty_generics = #default_expr;)
         });
-        let validate_fn = self
-            .validate_fn
-            .as_ref()
-            .map(|vfn| quote_spanned!(vfn.span() => #vfn(&self)?;));
+        let validate_fn = self.validate_fn.as_ref().map(|vfn| {
+            // Errors point to the path, but `self` is the receiver of this method
+            // even when the path comes from elsewhere, like out of a declarative macro.
+            let span = vfn.span().resolved_at(Span::call_site());
+            quote_spanned!(span => #vfn(&self)?;)
+        });
         let error_ty = &self.error_ty;
 
         if self.enabled {
-- 
2.43.0


From 7d081b130c457859002553bfdd03ea1162bda53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:43 +0000
Subject: [PATCH 10/11] fix: code in a string that a macro_rules macro got as a
 fragment was taken for a string unless it was the last option

---
 derive_builder_core/src/block.rs              | 29 ++++++++++++++++---
 derive_builder_core/src/default_expression.rs |  6 +++-
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/derive_builder_core/src/block.rs b/derive_builder_core/src/block.rs
index 45cd272..d8f5e50 100644
--- a/derive_builder_core/src/block.rs
+++ b/derive_builder_core/src/block.rs
@@ -64,10 +64,31 @@ impl darling::FromMeta for BlockContents {
     }
 
     fn from_expr(expr: &syn::Expr) -> darling::Result<Self> {
-        if let syn::Expr::Lit(lit) = expr {
-            Self::from_value(&lit.lit)
-        } else {
-            Ok(Self::from(expr.clone()))
+        match expr {
+            syn::Expr::Lit(lit) => Self::from_value(&lit.lit),
+            _ => match grouped_str(expr) {
+                Some(lit) => Self::from_value(lit),
+                None => Ok(Self::from(expr.clone())),
+            },
+        }
+    }
+}
+
+/// The string literal in the invisible group that a declarative macro leaves around
+/// an argument. `syn` only sees through that group when nothing follows it.
+pub(crate) fn grouped_str(expr: &syn::Expr) -> Option<&syn::Lit> {
+    let mut group = match expr {
+        syn::Expr::Group(group) => group,
+        _ => return None,
+    };
+    loop {
+        match *group.expr {
+            syn::Expr::Group(ref inner) => group = inner,
+            syn::Expr::Lit(syn::ExprLit {
+                lit: ref lit @ syn::Lit::Str(_),
+                ..
+            }) => return Some(lit),
+            _ => return None,
         }
     }
 }
diff --git a/derive_builder_core/src/default_expression.rs b/derive_builder_core/src/default_expression.rs
index 44dd304..f8e6965 100644
--- a/derive_builder_core/src/default_expression.rs
+++ b/derive_builder_core/src/default_expression.rs
@@ -1,4 +1,4 @@
-use crate::BlockContents;
+use crate::{block::grouped_str, BlockContents};
 use proc_macro2::Span;
 use quote::ToTokens;
 
@@ -48,6 +48,10 @@ impl darling::FromMeta for DefaultExpression {
             }
         }
 
+        if let Some(lit) = grouped_str(expr) {
+            return Self::from_value(lit);
+        }
+
         Ok(Self::Explicit(expr.clone().into()))
     }
 
-- 
2.43.0


From c2f8318a41a19bc5ff09bb4adf927fbf2d67f0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:34 +0000
Subject: [PATCH 11/11] fix: a keyword path like `self` was taken as the name
 of a generated item

---
 .../src/macro_options/darling_opts.rs          |  8 ++++++--
 derive_builder_core/src/options.rs             | 18 ++++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/derive_builder_core/src/macro_options/darling_opts.rs b/derive_builder_core/src/macro_options/darling_opts.rs
index 4f2454b..3da0771 100644
--- a/derive_builder_core/src/macro_options/darling_opts.rs
+++ b/derive_builder_core/src/macro_options/darling_opts.rs
@@ -8,6 +8,7 @@ use darling::{Error, FromMeta};
 use proc_macro2::Span;
 use syn::{parse::Parser, spanned::Spanned, Attribute, Generics, Ident, Meta, Path};
 
+use crate::options::parse_name;
 use crate::{
     BlockContents, Builder, BuilderField, BuilderFieldType, BuilderPattern, DefaultExpression,
     Each, FieldConversion, Initializer, Setter,
@@ -135,6 +136,7 @@ impl FromMeta for BuildFnError {
 #[darling(default, and_then = Self::validation_needs_error)]
 pub struct BuildFn {
     skip: bool,
+    #[darling(with = parse_name)]
     name: Ident,
     validate: Option<Path>,
     #[darling(flatten)]
@@ -234,7 +236,7 @@ impl StructLevelSetter {
 /// * `each(name = "...")`, which allows setting additional options on the `each` setter
 fn parse_each(meta: &Meta) -> darling::Result<Option<Each>> {
     if let Meta::NameValue(mnv) = meta {
-        Ident::from_meta(meta)
+        parse_name::<Ident>(meta)
             .map(Each::from)
             .map(Some)
             .map_err(|e| e.with_span(&mnv.value))
@@ -249,6 +251,7 @@ fn parse_each(meta: &Meta) -> darling::Result<Option<Each>> {
 #[derive(Debug, Clone, Default, FromMeta)]
 pub struct FieldLevelSetter {
     prefix: Option<Ident>,
+    #[darling(with = parse_name)]
     name: Option<Ident>,
     into: Option<bool>,
     strip_option: Option<bool>,
@@ -542,6 +545,7 @@ pub struct Options {
     generics: Generics,
 
     /// The name of the generated builder. Defaults to `#{ident}Builder`.
+    #[darling(with = parse_name)]
     name: Option<Ident>,
 
     /// The path to the root of the derive_builder crate used in generated
@@ -563,7 +567,7 @@ pub struct Options {
 
     /// The ident of the inherent method which takes no arguments and returns
     /// an instance of the builder with all fields empty.
-    #[darling(default = default_create_empty)]
+    #[darling(default = default_create_empty, with = parse_name)]
     create_empty: Ident,
 
     /// Setter options applied to all field setters in the struct.
diff --git a/derive_builder_core/src/options.rs b/derive_builder_core/src/options.rs
index c4d3ba9..8a7bf03 100644
--- a/derive_builder_core/src/options.rs
+++ b/derive_builder_core/src/options.rs
@@ -1,3 +1,6 @@
+use darling::FromMeta;
+use quote::ToTokens;
+
 /// Controls the signature of a setter method,
 /// more specifically how `self` is passed and returned.
 ///
@@ -34,8 +37,23 @@ impl Default for BuilderPattern {
     }
 }
 
+/// Parse the name of a generated item.
+///
+/// A path like `self` or `crate` may stand where an identifier is expected without being one.
+pub(crate) fn parse_name<T>(meta: &syn::Meta) -> darling::Result<T>
+where
+    syn::Ident: Into<T>,
+{
+    let name = syn::Ident::from_meta(meta)?;
+    match syn::parse2::<syn::Ident>(name.to_token_stream()) {
+        Ok(name) => Ok(name.into()),
+        Err(_) => Err(darling::Error::unknown_value(&name.to_string()).with_span(&name)),
+    }
+}
+
 #[derive(Debug, Clone, FromMeta)]
 pub struct Each {
+    #[darling(with = parse_name)]
     pub name: syn::Ident,
     #[darling(default)]
     pub into: bool,
-- 
2.43.0

