From cda385e8b431529875fe19a7818cbf0532be974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:32 +0000
Subject: [PATCH 1/3] fix: allow an unsized pinned field in a struct with
 lifetime parameters

The helper struct of the Unpin impl listed its lifetime markers after the
pinned fields, so a pinned unsized tail was not the last field and the
definition was rejected (E0277).
---
 pin-project-internal/src/pin_project/derive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 5cbfa8d..4e2ebb2 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -825,8 +825,9 @@ fn make_unpin_impl(cx: &Context<'_>) -> TokenStream {
                         #lifetime, (#(_pin_project::__private::PhantomData<#type_params>),*)
                     >,
 
-                    #(#fields,)*
                     #(#lifetime_fields,)*
+                    // The last pinned field may be unsized, so nothing may follow it.
+                    #(#fields,)*
                 }
 
                 impl #impl_generics _pin_project::__private::Unpin for #orig_ident #ty_generics
-- 
2.43.0


From b23633e16e07165de1c0dd59b851b4372f40e4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:05 +0000
Subject: [PATCH 2/3] fix: accept project_replace arguments that come from
 another macro

---
 pin-project-internal/src/pin_project/derive.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 4e2ebb2..3ef3b24 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -986,7 +986,9 @@ fn make_proj_impl(
     });
     let mut project_replace = cx.project_replace.span().map(|span| {
         // It is enough to only set the span of the signature.
-        let sig = quote_spanned! { span =>
+        // `self` and `__replacement` must resolve where the body does, even if
+        // the `project_replace` argument comes from another macro.
+        let sig = quote_spanned! { Span::call_site().located_at(span) =>
             #vis fn project_replace(
                 self: _pin_project::__private::Pin<&mut Self>,
                 __replacement: Self,
-- 
2.43.0


From 6f7466a6be1c3348419c8e180041efaf0729b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:08 +0000
Subject: [PATCH 3/3] fix: avoid lifetime names bound in the types of fields

---
 .../src/pin_project/derive.rs                 | 27 ++++++++++++++++---
 pin-project-internal/src/utils.rs             | 12 +++++++--
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 3ef3b24..3fda84b 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -1,5 +1,7 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use std::iter;
+
 use proc_macro2::{Delimiter, Group, Span, TokenStream};
 use quote::{ToTokens as _, format_ident, quote, quote_spanned};
 use syn::{
@@ -30,7 +32,15 @@ pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
             let self_ty = parse_quote!(#ident #ty_generics);
             let mut visitor = ReplaceReceiver(&self_ty);
             visitor.visit_item_struct_mut(input);
-            cx = Context::new(&input.attrs, &input.vis, &input.ident, &mut input.generics, Struct)?;
+            let fields = iter::once(&mut input.fields);
+            cx = Context::new(
+                &input.attrs,
+                &input.vis,
+                &input.ident,
+                &mut input.generics,
+                fields,
+                Struct,
+            )?;
             parse_struct(&mut cx, &input.fields, &mut generate)?;
         }
         Item::Enum(input) => {
@@ -39,7 +49,15 @@ pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
             let self_ty = parse_quote!(#ident #ty_generics);
             let mut visitor = ReplaceReceiver(&self_ty);
             visitor.visit_item_enum_mut(input);
-            cx = Context::new(&input.attrs, &input.vis, &input.ident, &mut input.generics, Enum)?;
+            let fields = input.variants.iter_mut().map(|v| &mut v.fields);
+            cx = Context::new(
+                &input.attrs,
+                &input.vis,
+                &input.ident,
+                &mut input.generics,
+                fields,
+                Enum,
+            )?;
             parse_enum(&mut cx, input.brace_token, &input.variants, &mut generate)?;
         }
         _ => bail!(input, "#[pin_project] attribute may only be used on structs or enums"),
@@ -191,11 +209,12 @@ struct Context<'a> {
 }
 
 impl<'a> Context<'a> {
-    fn new(
+    fn new<'f>(
         attrs: &'a [Attribute],
         vis: &'a Visibility,
         ident: &'a Ident,
         generics: &'a mut Generics,
+        fields: impl IntoIterator<Item = &'f mut Fields>,
         kind: TypeKind,
     ) -> Result<Self> {
         let Args { pinned_drop, unpin_impl, project, project_ref, project_replace } =
@@ -210,7 +229,7 @@ impl<'a> Context<'a> {
         }
 
         let mut lifetime_name = String::from("'pin");
-        determine_lifetime_name(&mut lifetime_name, generics);
+        determine_lifetime_name(&mut lifetime_name, generics, fields);
         let lifetime = Lifetime::new(&lifetime_name, Span::call_site());
 
         let ty_generics = generics.split_for_impl().1;
diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 2e66247..eb0e94b 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -5,7 +5,7 @@ use std::mem;
 use proc_macro2::{Group, Spacing, Span, TokenStream, TokenTree};
 use quote::{ToTokens, quote, quote_spanned};
 use syn::{
-    Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
+    Attribute, ExprPath, ExprStruct, Fields, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
     TypeParamBound, TypePath, Variant, Visibility, WherePredicate,
     parse::{Parse, ParseBuffer, ParseStream},
@@ -25,7 +25,11 @@ macro_rules! parse_quote_spanned {
 
 /// Determines the lifetime names. Ensure it doesn't overlap with any existing
 /// lifetime names.
-pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, generics: &mut Generics) {
+pub(crate) fn determine_lifetime_name<'a>(
+    lifetime_name: &mut String,
+    generics: &mut Generics,
+    fields: impl IntoIterator<Item = &'a mut Fields>,
+) {
     struct CollectLifetimes(Vec<String>);
 
     impl VisitMut for CollectLifetimes {
@@ -38,6 +42,10 @@ pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, generics: &mut
 
     let mut lifetimes = CollectLifetimes(vec![]);
     lifetimes.visit_generics_mut(generics);
+    // The types of fields may bind lifetimes as well (e.g., `for<'pin> fn(&'pin T)`).
+    for fields in fields {
+        lifetimes.visit_fields_mut(fields);
+    }
 
     while lifetimes.0.iter().any(|name| name.starts_with(&**lifetime_name)) {
         lifetime_name.push('_');
-- 
2.43.0

