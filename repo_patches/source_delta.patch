From 4c978b4764ade951821ab1be8cd1309319dbc411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:51 +0000
Subject: [PATCH 01/19] fix: choose a projection lifetime name that does not
 clash with lifetimes in field types

---
 .../src/pin_project/derive.rs                 | 27 ++++++++++++++-----
 pin-project-internal/src/utils.rs             |  5 ++--
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 5cbfa8d..f4a71e0 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -20,6 +20,10 @@ use crate::utils::{
 pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
     let mut input: Item = syn::parse2(input)?;
 
+    let mut lifetime_name = String::from("'pin");
+    determine_lifetime_name(&mut lifetime_name, &mut input);
+    let lifetime = Lifetime::new(&lifetime_name, Span::call_site());
+
     let mut cx;
     let mut generate = GenerateTokens::default();
 
@@ -30,7 +34,14 @@ pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
             let self_ty = parse_quote!(#ident #ty_generics);
             let mut visitor = ReplaceReceiver(&self_ty);
             visitor.visit_item_struct_mut(input);
-            cx = Context::new(&input.attrs, &input.vis, &input.ident, &mut input.generics, Struct)?;
+            cx = Context::new(
+                &input.attrs,
+                &input.vis,
+                &input.ident,
+                &mut input.generics,
+                lifetime,
+                Struct,
+            )?;
             parse_struct(&mut cx, &input.fields, &mut generate)?;
         }
         Item::Enum(input) => {
@@ -39,7 +50,14 @@ pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
             let self_ty = parse_quote!(#ident #ty_generics);
             let mut visitor = ReplaceReceiver(&self_ty);
             visitor.visit_item_enum_mut(input);
-            cx = Context::new(&input.attrs, &input.vis, &input.ident, &mut input.generics, Enum)?;
+            cx = Context::new(
+                &input.attrs,
+                &input.vis,
+                &input.ident,
+                &mut input.generics,
+                lifetime,
+                Enum,
+            )?;
             parse_enum(&mut cx, input.brace_token, &input.variants, &mut generate)?;
         }
         _ => bail!(input, "#[pin_project] attribute may only be used on structs or enums"),
@@ -196,6 +214,7 @@ impl<'a> Context<'a> {
         vis: &'a Visibility,
         ident: &'a Ident,
         generics: &'a mut Generics,
+        lifetime: Lifetime,
         kind: TypeKind,
     ) -> Result<Self> {
         let Args { pinned_drop, unpin_impl, project, project_ref, project_replace } =
@@ -209,10 +228,6 @@ impl<'a> Context<'a> {
             bail!(name, "name `{}` is the same as the original type name", name);
         }
 
-        let mut lifetime_name = String::from("'pin");
-        determine_lifetime_name(&mut lifetime_name, generics);
-        let lifetime = Lifetime::new(&lifetime_name, Span::call_site());
-
         let ty_generics = generics.split_for_impl().1;
         let ty_generics_as_generics = parse_quote!(#ty_generics);
         let mut proj_generics = generics.clone();
diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 2e66247..ffb83d8 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -25,7 +25,7 @@ macro_rules! parse_quote_spanned {
 
 /// Determines the lifetime names. Ensure it doesn't overlap with any existing
 /// lifetime names.
-pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, generics: &mut Generics) {
+pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, item: &mut Item) {
     struct CollectLifetimes(Vec<String>);
 
     impl VisitMut for CollectLifetimes {
@@ -37,7 +37,8 @@ pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, generics: &mut
     debug_assert!(lifetime_name.starts_with('\''));
 
     let mut lifetimes = CollectLifetimes(vec![]);
-    lifetimes.visit_generics_mut(generics);
+    // Not only generics: field types may also introduce lifetime names (e.g., `for<'pin> fn(&'pin T)`).
+    lifetimes.visit_item_mut(item);
 
     while lifetimes.0.iter().any(|name| name.starts_with(&**lifetime_name)) {
         lifetime_name.push('_');
-- 
2.43.0


From a34db66735e175c6ca9bbd228289b38d606f2aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:53 +0000
Subject: [PATCH 02/19] fix: report an error instead of panicking on unexpected
 items in #[pinned_drop] impls

---
 pin-project-internal/src/pinned_drop.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pinned_drop.rs b/pin-project-internal/src/pinned_drop.rs
index 0264dad..6527219 100644
--- a/pin-project-internal/src/pinned_drop.rs
+++ b/pin-project-internal/src/pinned_drop.rs
@@ -93,7 +93,7 @@ fn validate_impl(item: &ItemImpl) -> Result<()> {
             validate_sig(&method.sig)?;
             if i == 0 { Ok(()) } else { bail!(method, "duplicate definitions with name `drop`") }
         }
-        _ => unreachable!("unexpected ImplItem"),
+        item => bail!(item, "unexpected item in implementation of trait `PinnedDrop`"),
     })
 }
 
-- 
2.43.0


From c097ee5de6f0095591920fb837a142c5177d015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:12 +0000
Subject: [PATCH 03/19] fix: do not rewrite self:: paths in macro arguments of
 #[pinned_drop] bodies

---
 pin-project-internal/src/utils.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index ffb83d8..17881cb 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -235,7 +235,14 @@ impl ReplaceReceiver<'_> {
         while let Some(tt) = iter.next() {
             match tt {
                 TokenTree::Ident(mut ident) => {
-                    modified |= prepend_underscore_to_self(&mut ident);
+                    // Replace `self`, but not `self::function`.
+                    if ident == "self" {
+                        let mut ahead = iter.clone();
+                        let is_colon = |tt| matches!(tt, Some(TokenTree::Punct(p)) if p.as_char() == ':');
+                        if !(is_colon(ahead.next()) && is_colon(ahead.next())) {
+                            modified |= prepend_underscore_to_self(&mut ident);
+                        }
+                    }
                     if ident == "Self" {
                         modified = true;
                         let self_ty = self.self_ty(ident.span());
-- 
2.43.0


From bc21fe96a362846e8f402c2b70b48de1eb1d3b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:31 +0000
Subject: [PATCH 04/19] fix: accept pub(self) visibility on types and fields

---
 pin-project-internal/src/utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 17881cb..56c5baf 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -7,7 +7,7 @@ use quote::{ToTokens, quote, quote_spanned};
 use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
-    TypeParamBound, TypePath, Variant, Visibility, WherePredicate,
+    TypeParamBound, TypePath, Variant, VisRestricted, Visibility, WherePredicate,
     parse::{Parse, ParseBuffer, ParseStream},
     parse_quote,
     punctuated::Punctuated,
@@ -338,6 +338,10 @@ impl VisitMut for ReplaceReceiver<'_> {
         }
     }
 
+    fn visit_vis_restricted_mut(&mut self, _vis: &mut VisRestricted) {
+        // Do not replace `self` in `pub(self)`.
+    }
+
     fn visit_item_mut(&mut self, item: &mut Item) {
         match item {
             // Visit `macro_rules!` because locally defined macros can refer to `self`.
-- 
2.43.0


From 6bceb2a27e0dad9977f63c9ffb521a2f613c8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:04 +0000
Subject: [PATCH 05/19] fix: allow unsized pinned fields in types with lifetime
 parameters

---
 pin-project-internal/src/pin_project/derive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index f4a71e0..f8d9091 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -840,8 +840,9 @@ fn make_unpin_impl(cx: &Context<'_>) -> TokenStream {
                         #lifetime, (#(_pin_project::__private::PhantomData<#type_params>),*)
                     >,
 
-                    #(#fields,)*
+                    // The last pinned field may be unsized, so it must come last.
                     #(#lifetime_fields,)*
+                    #(#fields,)*
                 }
 
                 impl #impl_generics _pin_project::__private::Unpin for #orig_ident #ty_generics
-- 
2.43.0


From 47dfc1edfd70fa127a53b4668f8a370a13713071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:40 +0000
Subject: [PATCH 06/19] fix: treat fn pointer types in macro arguments as not
 introducing another self

Macros whose input contains a function pointer type, such as a field of type
mac!(PhantomData<fn(Self)>), kept Self unreplaced, so projection types got the
wrong field type.
---
 pin-project-internal/src/utils.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 56c5baf..dbb40a8 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -2,7 +2,7 @@
 
 use std::mem;
 
-use proc_macro2::{Group, Spacing, Span, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Group, Spacing, Span, TokenStream, TokenTree};
 use quote::{ToTokens, quote, quote_spanned};
 use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
@@ -366,11 +366,22 @@ impl VisitMut for ReplaceReceiver<'_> {
 }
 
 fn contains_fn(tokens: TokenStream) -> bool {
-    tokens.into_iter().any(|tt| match tt {
-        TokenTree::Ident(ident) => ident == "fn",
-        TokenTree::Group(group) => contains_fn(group.stream()),
-        _ => false,
-    })
+    let mut tokens = tokens.into_iter().peekable();
+    while let Some(tt) = tokens.next() {
+        let found = match tt {
+            // Function pointer types (`fn(..)`) cannot introduce a different self.
+            TokenTree::Ident(ident) => {
+                ident == "fn"
+                    && !matches!(tokens.peek(), Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis)
+            }
+            TokenTree::Group(group) => contains_fn(group.stream()),
+            _ => false,
+        };
+        if found {
+            return true;
+        }
+    }
+    false
 }
 
 pub(crate) fn prepend_underscore_to_self(ident: &mut Ident) -> bool {
-- 
2.43.0


From b569379a310960672e99a40ad5f0bb9b442bf601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:33 +0000
Subject: [PATCH 07/19] fix: report an error instead of panicking on default fn
 in #[pinned_drop] impls

---
 pin-project-internal/src/pinned_drop.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pin-project-internal/src/pinned_drop.rs b/pin-project-internal/src/pinned_drop.rs
index 6527219..1cde426 100644
--- a/pin-project-internal/src/pinned_drop.rs
+++ b/pin-project-internal/src/pinned_drop.rs
@@ -90,6 +90,9 @@ fn validate_impl(item: &ItemImpl) -> Result<()> {
             bail!(item, "type `{}` is not a member of trait `PinnedDrop`", item.ident)
         }
         ImplItem::Fn(method) => {
+            if method.defaultness.is_some() {
+                bail!(method.defaultness, "method `drop` must not be a default implementation");
+            }
             validate_sig(&method.sig)?;
             if i == 0 { Ok(()) } else { bail!(method, "duplicate definitions with name `drop`") }
         }
-- 
2.43.0


From d8f76a7c143f5091a137288586e63adc8ff31707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:26 +0000
Subject: [PATCH 08/19] fix: keep the default lifetime bound of trait object
 fields in projected types

---
 .../src/pin_project/derive.rs                 | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index f8d9091..f3c9d49 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -605,12 +605,13 @@ fn visit_fields<'a>(
         let binding = ident.clone().unwrap_or_else(|| format_ident!("_{}", i));
         proj_pat.extend(quote!(#binding,));
         let lifetime = &cx.proj.lifetime;
+        let referent = referent_type(ty);
         if attrs.position_exact(PIN)?.is_some() {
             proj_fields.extend(quote! {
-                #vis #ident #colon_token ::pin_project::__private::Pin<&#lifetime mut (#ty)>,
+                #vis #ident #colon_token ::pin_project::__private::Pin<&#lifetime mut #referent>,
             });
             proj_ref_fields.extend(quote! {
-                #vis #ident #colon_token ::pin_project::__private::Pin<&#lifetime (#ty)>,
+                #vis #ident #colon_token ::pin_project::__private::Pin<&#lifetime #referent>,
             });
             proj_own_fields.extend(quote! {
                 #vis #ident #colon_token ::pin_project::__private::PhantomData<#ty>,
@@ -626,10 +627,10 @@ fn visit_fields<'a>(
             pinned_bindings.push(binding);
         } else {
             proj_fields.extend(quote! {
-                #vis #ident #colon_token &#lifetime mut (#ty),
+                #vis #ident #colon_token &#lifetime mut #referent,
             });
             proj_ref_fields.extend(quote! {
-                #vis #ident #colon_token &#lifetime (#ty),
+                #vis #ident #colon_token &#lifetime #referent,
             });
             proj_own_fields.extend(quote! {
                 #vis #ident #colon_token #ty,
@@ -662,6 +663,26 @@ fn visit_fields<'a>(
     })
 }
 
+/// Returns the field type in the form used behind the references in projected types.
+fn referent_type(ty: &Type) -> TokenStream {
+    fn is_trait_object(ty: &Type) -> bool {
+        match ty {
+            Type::TraitObject(_) => true,
+            Type::Group(ty) => is_trait_object(&ty.elem),
+            Type::Paren(ty) => is_trait_object(&ty.elem),
+            _ => false,
+        }
+    }
+
+    if is_trait_object(ty) {
+        // The default lifetime bound of `dyn Trait` depends on whether it is behind a reference.
+        // Use the alias, which is always the same type as `#ty`, to keep the one it has in the field.
+        quote!(::pin_project::__private::PinnedFieldsOf<#ty>)
+    } else {
+        quote!((#ty))
+    }
+}
+
 /// Generates the processing that `project_replace` does for the struct or each variant.
 ///
 /// Note: `pinned_fields` must be in declaration order.
-- 
2.43.0


From 2eb6bc3415ae0122e87d00a2f3141b1cf093f118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:40 +0000
Subject: [PATCH 09/19] fix: reject Drop impls on unsized types in
 #[pin_project]

---
 pin-project-internal/src/pin_project/derive.rs | 2 +-
 src/lib.rs                                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index f3c9d49..05e97fd 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -947,7 +947,7 @@ fn make_drop_impl(cx: &Context<'_>) -> TokenStream {
             // This will result in a compilation error, which is exactly what we want.
             trait #trait_ident {}
             #[allow(clippy::drop_bounds, drop_bounds)]
-            impl<T: _pin_project::__private::Drop> #trait_ident for T {}
+            impl<T: _pin_project::__private::Drop + ?_pin_project::__private::Sized> #trait_ident for T {}
             impl #impl_generics #trait_ident for #ident #ty_generics #where_clause {}
 
             // Generate a dummy impl of `PinnedDrop`, to ensure that the user cannot implement it.
diff --git a/src/lib.rs b/src/lib.rs
index acfd341..2c93bae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -187,7 +187,7 @@ pub mod __private {
     use core::mem::ManuallyDrop;
     #[doc(hidden)]
     pub use core::{
-        marker::{PhantomData, PhantomPinned, Unpin},
+        marker::{PhantomData, PhantomPinned, Sized, Unpin},
         ops::Drop,
         pin::Pin,
         ptr,
-- 
2.43.0


From 68f8445bab5f415b80bdf6b25b08a2a39c12184b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:59 +0000
Subject: [PATCH 10/19] fix: name the anonymous lifetimes of #[pinned_drop]
 impls so that Self means one type in the body

---
 pin-project-internal/src/pinned_drop.rs | 37 +++++++++++++++++++++----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/pin-project-internal/src/pinned_drop.rs b/pin-project-internal/src/pinned_drop.rs
index 1cde426..d743749 100644
--- a/pin-project-internal/src/pinned_drop.rs
+++ b/pin-project-internal/src/pinned_drop.rs
@@ -3,9 +3,9 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens as _, format_ident, quote};
 use syn::{
-    Error, FnArg, GenericArgument, Ident, ImplItem, ItemImpl, Pat, PatIdent, PatType, Path,
-    PathArguments, Result, ReturnType, Signature, Token, Type, TypePath, TypeReference,
-    parse_quote, spanned::Spanned as _, token::Colon, visit_mut::VisitMut as _,
+    Error, FnArg, GenericArgument, Generics, Ident, ImplItem, ItemImpl, Lifetime, Pat, PatIdent,
+    PatType, Path, PathArguments, Result, ReturnType, Signature, Token, Type, TypePath,
+    TypeReference, parse_quote, spanned::Spanned as _, token::Colon, visit_mut::VisitMut as _,
 };
 
 use crate::utils::{ReplaceReceiver, SliceExt as _};
@@ -194,6 +194,9 @@ fn expand_impl(item: &mut ItemImpl) {
         drop_inner.block.stmts.insert(0, parse_quote!(fn #ident() {}));
         drop_inner.sig.ident = ident;
         drop_inner.sig.generics = item.generics.clone();
+        let mut self_ty =
+            if let Type::Path(ty) = &*item.self_ty { ty.clone() } else { unreachable!() };
+        name_anonymous_lifetimes(&mut self_ty, &mut drop_inner.sig.generics);
         let receiver = drop_inner.sig.receiver().expect("drop() should have a receiver").clone();
         let pat = Box::new(Pat::Ident(PatIdent {
             attrs: vec![],
@@ -208,8 +211,7 @@ fn expand_impl(item: &mut ItemImpl) {
             colon_token: Colon::default(),
             ty: receiver.ty,
         });
-        let self_ty = if let Type::Path(ty) = &*item.self_ty { ty } else { unreachable!() };
-        let mut visitor = ReplaceReceiver(self_ty);
+        let mut visitor = ReplaceReceiver(&self_ty);
         visitor.visit_signature_mut(&mut drop_inner.sig);
         visitor.visit_block_mut(&mut drop_inner.block);
         drop_inner
@@ -226,7 +228,9 @@ fn expand_impl(item: &mut ItemImpl) {
 
     method.block.stmts = parse_quote! {
         #[allow(
+            clippy::elidable_lifetime_names,
             clippy::missing_const_for_fn,
+            clippy::needless_lifetimes,
             clippy::needless_pass_by_value, // This lint does not warn the receiver.
             clippy::single_call_fn
         )]
@@ -234,3 +238,26 @@ fn expand_impl(item: &mut ItemImpl) {
         __drop_inner(#self_token);
     };
 }
+
+/// Replaces the anonymous lifetimes (`'_`) in the arguments of the self type with named
+/// lifetime parameters.
+///
+/// In the impl, every `Self` refers to the same lifetime, but `'_` means a different lifetime
+/// in each place `Self` is replaced with the self type.
+fn name_anonymous_lifetimes(self_ty: &mut TypePath, generics: &mut Generics) {
+    for segment in &mut self_ty.path.segments {
+        if let PathArguments::AngleBracketed(args) = &mut segment.arguments {
+            for arg in &mut args.args {
+                if let GenericArgument::Lifetime(lifetime) = arg {
+                    if lifetime.ident == "_" {
+                        let name = format!("'__pin{}", generics.params.len());
+                        *lifetime = Lifetime::new(&name, Span::call_site());
+                        generics
+                            .params
+                            .insert(0, parse_quote!(#[allow(single_use_lifetimes)] #lifetime));
+                    }
+                }
+            }
+        }
+    }
+}
-- 
2.43.0


From eac4046240a84cd90d884f29dd6964e85c3d8eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:15 +0000
Subject: [PATCH 11/19] fix: do not break when a constant, static or unit
 struct named this is in scope

---
 pin-project-internal/src/pin_project/derive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 05e97fd..60c4e78 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -1157,13 +1157,13 @@ fn ensure_not_packed(orig: &OriginalType<'_>, fields: Option<&Fields>) -> Result
     match fields {
         Fields::Named(FieldsNamed { named, .. }) => {
             for Field { ident, .. } in named {
-                field_refs.push(quote!(&this.#ident));
+                field_refs.push(quote!(&__this.#ident));
             }
         }
         Fields::Unnamed(FieldsUnnamed { unnamed, .. }) => {
             for (index, _) in unnamed.iter().enumerate() {
                 let index = Index::from(index);
-                field_refs.push(quote!(&this.#index));
+                field_refs.push(quote!(&__this.#index));
             }
         }
         Fields::Unit => {}
@@ -1173,7 +1173,7 @@ fn ensure_not_packed(orig: &OriginalType<'_>, fields: Option<&Fields>) -> Result
     let ident = orig.ident;
     Ok(quote! {
         #[forbid(unaligned_references, safe_packed_borrows)]
-        fn __assert_not_repr_packed #impl_generics (this: &#ident #ty_generics) #where_clause {
+        fn __assert_not_repr_packed #impl_generics (__this: &#ident #ty_generics) #where_clause {
             #(let _ = #field_refs;)*
         }
     })
-- 
2.43.0


From 1a9eacb35d74732a87582db52892efdf94607492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:15 +0000
Subject: [PATCH 12/19] fix: allow lints that generated copies of field types
 and generics trigger

---
 .../src/pin_project/derive.rs                 | 25 +++++++++++++++----
 pin-project-internal/src/pinned_drop.rs       |  3 +++
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 60c4e78..b799031 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -138,6 +138,19 @@ fn global_allowed_lints() -> TokenStream {
         // We allow this lint for compatibility with older compilers.
         clippy::unknown_clippy_lints,
         clippy::absolute_paths,
+        // These lints warn field types copied from the original type.
+        clippy::box_collection,
+        clippy::linkedlist,
+        clippy::option_option,
+        clippy::rc_buffer,
+        clippy::rc_mutex,
+        clippy::redundant_allocation,
+        clippy::trailing_empty_array,
+        clippy::type_complexity,
+        clippy::vec_box,
+        // These lints warn generics copied from the original type.
+        clippy::inline_trait_bounds,
+        clippy::multiple_bound_locations,
         clippy::min_ident_chars,
         clippy::pattern_type_mismatch,
         clippy::pub_with_shorthand,
@@ -150,11 +163,17 @@ fn global_allowed_lints() -> TokenStream {
 /// Returns attributes used on projected types.
 fn proj_allowed_lints(cx: &Context<'_>) -> (TokenStream, TokenStream, TokenStream) {
     let global_allowed_lints = global_allowed_lints();
+    let variant_size_differences = if cx.kind == Enum {
+        Some(quote! { variant_size_differences, clippy::large_enum_variant, })
+    } else {
+        None
+    };
     let proj_mut_allowed_lints = if cx.project { Some(&global_allowed_lints) } else { None };
     let proj_mut = quote! {
         #[allow(
             dead_code, // This lint warns unused fields/variants.
             #proj_mut_allowed_lints
+            #variant_size_differences
             clippy::missing_docs_in_private_items,
             clippy::mut_mut // This lint warns `&mut &mut <ty>`.
         )]
@@ -164,17 +183,13 @@ fn proj_allowed_lints(cx: &Context<'_>) -> (TokenStream, TokenStream, TokenStrea
         #[allow(
             dead_code, // This lint warns unused fields/variants.
             #proj_ref_allowed_lints
+            #variant_size_differences
             clippy::missing_docs_in_private_items,
             clippy::ref_option_ref // This lint warns `&Option<&<ty>>`.
         )]
     };
     let proj_own_allowed_lints =
         if cx.project_replace.ident().is_some() { Some(&global_allowed_lints) } else { None };
-    let variant_size_differences = if cx.kind == Enum {
-        Some(quote! { variant_size_differences, clippy::large_enum_variant, })
-    } else {
-        None
-    };
     let proj_own = quote! {
         #[allow(
             dead_code, // This lint warns unused fields/variants.
diff --git a/pin-project-internal/src/pinned_drop.rs b/pin-project-internal/src/pinned_drop.rs
index d743749..bb56bb7 100644
--- a/pin-project-internal/src/pinned_drop.rs
+++ b/pin-project-internal/src/pinned_drop.rs
@@ -228,8 +228,11 @@ fn expand_impl(item: &mut ItemImpl) {
 
     method.block.stmts = parse_quote! {
         #[allow(
+            clippy::unknown_clippy_lints,
             clippy::elidable_lifetime_names,
+            clippy::inline_trait_bounds,
             clippy::missing_const_for_fn,
+            clippy::multiple_bound_locations,
             clippy::needless_lifetimes,
             clippy::needless_pass_by_value, // This lint does not warn the receiver.
             clippy::single_call_fn
-- 
2.43.0


From d1bb73dcfae630aadc3edaf1f3becb652f547161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:40 +0000
Subject: [PATCH 13/19] fix: choose a projection lifetime name that does not
 clash with raw lifetimes such as 'r#pin

---
 pin-project-internal/src/utils.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index dbb40a8..f3f3c75 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -8,6 +8,7 @@ use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
     TypeParamBound, TypePath, Variant, VisRestricted, Visibility, WherePredicate,
+    ext::IdentExt as _,
     parse::{Parse, ParseBuffer, ParseStream},
     parse_quote,
     punctuated::Punctuated,
@@ -30,7 +31,8 @@ pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, item: &mut Ite
 
     impl VisitMut for CollectLifetimes {
         fn visit_lifetime_param_mut(&mut self, def: &mut LifetimeParam) {
-            self.0.push(def.lifetime.to_string());
+            // `'r#pin` is the same lifetime as `'pin`.
+            self.0.push(format!("'{}", def.lifetime.ident.unraw()));
         }
     }
 
-- 
2.43.0


From b9415f9d24266030909340afe629b48e7ffced2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:33 +0000
Subject: [PATCH 14/19] fix: do not let inherent get_ref or get_unchecked_mut
 methods of the type break projection methods

---
 pin-project-internal/src/pin_project/derive.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index b799031..62d1f0f 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -438,11 +438,11 @@ fn parse_struct<'a>(
     }
 
     let proj_mut_body = quote! {
-        let Self #proj_pat = self.get_unchecked_mut();
+        let Self #proj_pat = _pin_project::__private::Pin::get_unchecked_mut(self);
         #proj_ident #proj_body
     };
     let proj_ref_body = quote! {
-        let Self #proj_pat = self.get_ref();
+        let Self #proj_pat = _pin_project::__private::Pin::get_ref(self);
         #proj_ref_ident #proj_body
     };
     let proj_own_body = quote! {
@@ -522,12 +522,12 @@ fn parse_enum<'a>(
     }
 
     let proj_mut_body = quote! {
-        match self.get_unchecked_mut() {
+        match _pin_project::__private::Pin::get_unchecked_mut(self) {
             #proj_arms
         }
     };
     let proj_ref_body = quote! {
-        match self.get_ref() {
+        match _pin_project::__private::Pin::get_ref(self) {
             #proj_ref_arms
         }
     };
@@ -1048,7 +1048,7 @@ fn make_proj_impl(
             #[inline]
             #sig {
                 unsafe {
-                    let __self_ptr: *mut Self = self.get_unchecked_mut();
+                    let __self_ptr: *mut Self = _pin_project::__private::Pin::get_unchecked_mut(self);
 
                     // Destructors will run in reverse order, so next create a guard to overwrite
                     // `self` with the replacement value without calling destructors.
-- 
2.43.0


From 7bfde5e48571572fda1384704f46cfa9bd66a579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:01 +0000
Subject: [PATCH 15/19] fix: replace Self in macro arguments of #[pinned_drop]
 bodies with a path that is valid in expressions and patterns

---
 pin-project-internal/src/utils.rs | 27 +++++++--------------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index f3f3c75..2a23679 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -2,8 +2,8 @@
 
 use std::mem;
 
-use proc_macro2::{Delimiter, Group, Spacing, Span, TokenStream, TokenTree};
-use quote::{ToTokens, quote, quote_spanned};
+use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
+use quote::ToTokens;
 use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
@@ -233,7 +233,7 @@ impl ReplaceReceiver<'_> {
     fn visit_token_stream(&self, tokens: &mut TokenStream) -> bool {
         let mut out = vec![];
         let mut modified = false;
-        let mut iter = tokens.clone().into_iter().peekable();
+        let mut iter = tokens.clone().into_iter();
         while let Some(tt) = iter.next() {
             match tt {
                 TokenTree::Ident(mut ident) => {
@@ -247,23 +247,10 @@ impl ReplaceReceiver<'_> {
                     }
                     if ident == "Self" {
                         modified = true;
-                        let self_ty = self.self_ty(ident.span());
-                        match iter.peek() {
-                            Some(TokenTree::Punct(p))
-                                if p.as_char() == ':' && p.spacing() == Spacing::Joint =>
-                            {
-                                let next = iter.next().unwrap();
-                                match iter.peek() {
-                                    Some(TokenTree::Punct(p)) if p.as_char() == ':' => {
-                                        let span = ident.span();
-                                        out.extend(quote_spanned!(span=> <#self_ty>));
-                                    }
-                                    _ => out.extend(quote!(#self_ty)),
-                                }
-                                out.push(next);
-                            }
-                            _ => out.extend(quote!(#self_ty)),
-                        }
+                        // `Receiver::<T>` is valid in expressions, patterns, and types.
+                        let mut self_path = ident.into();
+                        self.self_to_expr_path(&mut self_path);
+                        out.extend(self_path.into_token_stream());
                     } else {
                         out.push(TokenTree::Ident(ident));
                     }
-- 
2.43.0


From b205dac02b0dabc3382cd242bfe3ea22c6f892f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:30 +0000
Subject: [PATCH 16/19] fix: do not replace self in pub(self) and use lists in
 macro arguments of #[pinned_drop] bodies

---
 pin-project-internal/src/utils.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 2a23679..d6d8de2 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -255,6 +255,10 @@ impl ReplaceReceiver<'_> {
                         out.push(TokenTree::Ident(ident));
                     }
                 }
+                // Do not replace `self` in `pub(self)` and `use path::{self}`.
+                TokenTree::Group(group) if is_vis_or_use_tree(&out, group.delimiter()) => {
+                    out.push(TokenTree::Group(group));
+                }
                 TokenTree::Group(group) => {
                     let mut content = group.stream();
                     modified |= self.visit_token_stream(&mut content);
@@ -354,6 +358,17 @@ impl VisitMut for ReplaceReceiver<'_> {
     }
 }
 
+/// Returns `true` if a group following `tokens` is the restriction of a visibility or a list in a
+/// use declaration.
+fn is_vis_or_use_tree(tokens: &[TokenTree], delimiter: Delimiter) -> bool {
+    let is_colon = |tt: &TokenTree| matches!(tt, TokenTree::Punct(p) if p.as_char() == ':');
+    match (tokens, delimiter) {
+        ([.., TokenTree::Ident(ident)], Delimiter::Parenthesis) => ident == "pub",
+        ([.., a, b], Delimiter::Brace) => is_colon(a) && is_colon(b),
+        _ => false,
+    }
+}
+
 fn contains_fn(tokens: TokenStream) -> bool {
     let mut tokens = tokens.into_iter().peekable();
     while let Some(tt) = tokens.next() {
-- 
2.43.0


From 1a7478a57ad9701510791af0aea4711e73686cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:21 +0000
Subject: [PATCH 17/19] fix: allow more lints that fields, names and generics
 copied from the original type trigger

---
 pin-project-internal/src/pin_project/derive.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 62d1f0f..5cd9058 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -131,26 +131,42 @@ fn global_allowed_lints() -> TokenStream {
     quote! {
         deprecated,
         explicit_outlives_requirements, // https://github.com/rust-lang/rust/issues/60993
+        non_camel_case_types, // This lint warns names copied from the original type.
+        non_snake_case, // This lint warns names copied from the original type.
+        redundant_lifetimes, // This lint warns generics copied from the original type.
         single_use_lifetimes, // https://github.com/rust-lang/rust/issues/55058
         unreachable_pub, // This lint warns `pub` field in private struct.
+        unused_braces, // This lint warns field types copied from the original type.
+        unused_parens, // This lint warns field types copied from the original type.
         unused_tuple_struct_fields,
         // This lint warns of `clippy::*` generated by external macros.
         // We allow this lint for compatibility with older compilers.
         clippy::unknown_clippy_lints,
         clippy::absolute_paths,
-        // These lints warn field types copied from the original type.
+        // These lints warn fields copied from the original type.
+        clippy::borrowed_box,
         clippy::box_collection,
+        clippy::field_scoped_visibility_modifiers,
         clippy::linkedlist,
+        clippy::mut_mut,
         clippy::option_option,
+        clippy::partial_pub_fields,
         clippy::rc_buffer,
         clippy::rc_mutex,
         clippy::redundant_allocation,
+        clippy::ref_option_ref,
+        clippy::std_instead_of_alloc,
+        clippy::std_instead_of_core,
+        clippy::struct_field_names,
         clippy::trailing_empty_array,
         clippy::type_complexity,
+        clippy::upper_case_acronyms,
         clippy::vec_box,
+        clippy::zero_sized_map_values,
         // These lints warn generics copied from the original type.
         clippy::inline_trait_bounds,
         clippy::multiple_bound_locations,
+        clippy::trait_duplication_in_bounds,
         clippy::min_ident_chars,
         clippy::pattern_type_mismatch,
         clippy::pub_with_shorthand,
-- 
2.43.0


From b0d8af456c21661234d747a720d539bfb5b761bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:44 +0000
Subject: [PATCH 18/19] fix: keep qualified paths to associated items in macro
 arguments of #[pinned_drop] bodies

`Receiver::<T>::item` makes rustc crash when a crate compiled with the earlier
expansion is rebuilt incrementally.
---
 pin-project-internal/src/utils.rs | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index d6d8de2..302e5df 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -3,7 +3,7 @@
 use std::mem;
 
 use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
-use quote::ToTokens;
+use quote::{ToTokens, quote_spanned};
 use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
@@ -247,10 +247,16 @@ impl ReplaceReceiver<'_> {
                     }
                     if ident == "Self" {
                         modified = true;
-                        // `Receiver::<T>` is valid in expressions, patterns, and types.
-                        let mut self_path = ident.into();
-                        self.self_to_expr_path(&mut self_path);
-                        out.extend(self_path.into_token_stream());
+                        if is_assoc_item(iter.clone()) {
+                            // `Self::item` -> `<Receiver<T>>::item`
+                            let self_ty = self.self_ty(ident.span());
+                            out.extend(quote_spanned!(ident.span()=> <#self_ty>));
+                        } else {
+                            // `Receiver::<T>` is valid in expressions, patterns, and types.
+                            let mut self_path = ident.into();
+                            self.self_to_expr_path(&mut self_path);
+                            out.extend(self_path.into_token_stream());
+                        }
                     } else {
                         out.push(TokenTree::Ident(ident));
                     }
@@ -358,6 +364,20 @@ impl VisitMut for ReplaceReceiver<'_> {
     }
 }
 
+/// Returns `true` if `tokens` following `Self` name an associated item, but not one followed by a
+/// brace, because `<Receiver>::Variant { .. }` is not allowed.
+fn is_assoc_item(tokens: impl Iterator<Item = TokenTree>) -> bool {
+    let tokens: Vec<_> = tokens.take(4).collect();
+    let is_colon = |tt: &TokenTree| matches!(tt, TokenTree::Punct(p) if p.as_char() == ':');
+    match &*tokens {
+        [a, b, TokenTree::Ident(_), TokenTree::Group(g)] if is_colon(a) && is_colon(b) => {
+            g.delimiter() != Delimiter::Brace
+        }
+        [a, b, ..] => is_colon(a) && is_colon(b),
+        _ => false,
+    }
+}
+
 /// Returns `true` if a group following `tokens` is the restriction of a visibility or a list in a
 /// use declaration.
 fn is_vis_or_use_tree(tokens: &[TokenTree], delimiter: Delimiter) -> bool {
-- 
2.43.0


From 84e2cdbddfc51c66b5478fe1bdaac1994636297e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:50 +0000
Subject: [PATCH 19/19] fix: give the angle brackets that replace Self in
 #[pinned_drop] bodies spans of their own

They are not in the original code. With the span of Self alone, replacing it with a
path makes rustc crash when a crate compiled with the earlier expansion is rebuilt
incrementally. This supersedes the previous commit, which broke Self::V(..) patterns.
---
 pin-project-internal/src/utils.rs | 34 ++++++++-----------------------
 1 file changed, 9 insertions(+), 25 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 302e5df..ad06fbf 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -3,7 +3,7 @@
 use std::mem;
 
 use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
-use quote::{ToTokens, quote_spanned};
+use quote::ToTokens;
 use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
@@ -216,9 +216,13 @@ impl ReplaceReceiver<'_> {
         }
 
         let self_ty = self.self_ty(first.ident.span());
+        // The angle brackets are not in the original code, unlike `Self`.
+        let span = Span::call_site().located_at(first.ident.span());
         let variant = mem::replace(path, self_ty.path);
         for segment in &mut path.segments {
             if let PathArguments::AngleBracketed(bracketed) = &mut segment.arguments {
+                bracketed.lt_token = Token![<](span);
+                bracketed.gt_token = Token![>](span);
                 if bracketed.colon2_token.is_none() && !bracketed.args.is_empty() {
                     bracketed.colon2_token = Some(<Token![::]>::default());
                 }
@@ -247,16 +251,10 @@ impl ReplaceReceiver<'_> {
                     }
                     if ident == "Self" {
                         modified = true;
-                        if is_assoc_item(iter.clone()) {
-                            // `Self::item` -> `<Receiver<T>>::item`
-                            let self_ty = self.self_ty(ident.span());
-                            out.extend(quote_spanned!(ident.span()=> <#self_ty>));
-                        } else {
-                            // `Receiver::<T>` is valid in expressions, patterns, and types.
-                            let mut self_path = ident.into();
-                            self.self_to_expr_path(&mut self_path);
-                            out.extend(self_path.into_token_stream());
-                        }
+                        // `Receiver::<T>` is valid in expressions, patterns, and types.
+                        let mut self_path = ident.into();
+                        self.self_to_expr_path(&mut self_path);
+                        out.extend(self_path.into_token_stream());
                     } else {
                         out.push(TokenTree::Ident(ident));
                     }
@@ -364,20 +362,6 @@ impl VisitMut for ReplaceReceiver<'_> {
     }
 }
 
-/// Returns `true` if `tokens` following `Self` name an associated item, but not one followed by a
-/// brace, because `<Receiver>::Variant { .. }` is not allowed.
-fn is_assoc_item(tokens: impl Iterator<Item = TokenTree>) -> bool {
-    let tokens: Vec<_> = tokens.take(4).collect();
-    let is_colon = |tt: &TokenTree| matches!(tt, TokenTree::Punct(p) if p.as_char() == ':');
-    match &*tokens {
-        [a, b, TokenTree::Ident(_), TokenTree::Group(g)] if is_colon(a) && is_colon(b) => {
-            g.delimiter() != Delimiter::Brace
-        }
-        [a, b, ..] => is_colon(a) && is_colon(b),
-        _ => false,
-    }
-}
-
 /// Returns `true` if a group following `tokens` is the restriction of a visibility or a list in a
 /// use declaration.
 fn is_vis_or_use_tree(tokens: &[TokenTree], delimiter: Delimiter) -> bool {
-- 
2.43.0

