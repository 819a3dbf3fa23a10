From a797c8456a7271938913b3b0bd2054b4e149adf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:13 +0000
Subject: [PATCH 01/13] fix: accept an unsized pinned field in a type with
 lifetime parameters

The helper struct behind the conditional Unpin implementation listed the
pinned fields before its lifetime markers, so an unsized last field was no
longer last and the expansion failed to compile.
---
 pin-project-internal/src/pin_project/derive.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 5cbfa8d..cc6e9b5 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -825,8 +825,9 @@ fn make_unpin_impl(cx: &Context<'_>) -> TokenStream {
                         #lifetime, (#(_pin_project::__private::PhantomData<#type_params>),*)
                     >,
 
-                    #(#fields,)*
+                    // The pinned fields come last because the last of them may be unsized.
                     #(#lifetime_fields,)*
+                    #(#fields,)*
                 }
 
                 impl #impl_generics _pin_project::__private::Unpin for #orig_ident #ty_generics
-- 
2.43.0


From 1cde1d0948088a757c8260d86420e1886d439218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:13 +0000
Subject: [PATCH 02/13] fix: report macro items in a pinned_drop impl instead
 of panicking

---
 pin-project-internal/src/pinned_drop.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pin-project-internal/src/pinned_drop.rs b/pin-project-internal/src/pinned_drop.rs
index 0264dad..71bed2c 100644
--- a/pin-project-internal/src/pinned_drop.rs
+++ b/pin-project-internal/src/pinned_drop.rs
@@ -93,7 +93,7 @@ fn validate_impl(item: &ItemImpl) -> Result<()> {
             validate_sig(&method.sig)?;
             if i == 0 { Ok(()) } else { bail!(method, "duplicate definitions with name `drop`") }
         }
-        _ => unreachable!("unexpected ImplItem"),
+        item => bail!(item, "only the method `drop` may be defined in an impl of `PinnedDrop`"),
     })
 }
 
-- 
2.43.0


From 2d7f9695b77acf227173cebd5103e6b48662a9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:31 +0000
Subject: [PATCH 03/13] fix: keep the projection lifetime apart from lifetimes
 bound in field types

A field type such as `for<'pin> fn(&'pin u8)` binds a lifetime with the name
chosen for the projection types, which made the expansion fail to compile.
---
 .../src/pin_project/derive.rs                 | 26 +++++++++++++++----
 pin-project-internal/src/utils.rs             |  6 ++---
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index cc6e9b5..3aaf8d8 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -20,6 +20,9 @@ use crate::utils::{
 pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
     let mut input: Item = syn::parse2(input)?;
 
+    let mut lifetime_name = String::from("'pin");
+    determine_lifetime_name(&mut lifetime_name, &mut input);
+
     let mut cx;
     let mut generate = GenerateTokens::default();
 
@@ -30,7 +33,14 @@ pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
             let self_ty = parse_quote!(#ident #ty_generics);
             let mut visitor = ReplaceReceiver(&self_ty);
             visitor.visit_item_struct_mut(input);
-            cx = Context::new(&input.attrs, &input.vis, &input.ident, &mut input.generics, Struct)?;
+            cx = Context::new(
+                &input.attrs,
+                &input.vis,
+                &input.ident,
+                &mut input.generics,
+                &lifetime_name,
+                Struct,
+            )?;
             parse_struct(&mut cx, &input.fields, &mut generate)?;
         }
         Item::Enum(input) => {
@@ -39,7 +49,14 @@ pub(super) fn parse_derive(input: TokenStream) -> Result<TokenStream> {
             let self_ty = parse_quote!(#ident #ty_generics);
             let mut visitor = ReplaceReceiver(&self_ty);
             visitor.visit_item_enum_mut(input);
-            cx = Context::new(&input.attrs, &input.vis, &input.ident, &mut input.generics, Enum)?;
+            cx = Context::new(
+                &input.attrs,
+                &input.vis,
+                &input.ident,
+                &mut input.generics,
+                &lifetime_name,
+                Enum,
+            )?;
             parse_enum(&mut cx, input.brace_token, &input.variants, &mut generate)?;
         }
         _ => bail!(input, "#[pin_project] attribute may only be used on structs or enums"),
@@ -196,6 +213,7 @@ impl<'a> Context<'a> {
         vis: &'a Visibility,
         ident: &'a Ident,
         generics: &'a mut Generics,
+        lifetime_name: &str,
         kind: TypeKind,
     ) -> Result<Self> {
         let Args { pinned_drop, unpin_impl, project, project_ref, project_replace } =
@@ -209,9 +227,7 @@ impl<'a> Context<'a> {
             bail!(name, "name `{}` is the same as the original type name", name);
         }
 
-        let mut lifetime_name = String::from("'pin");
-        determine_lifetime_name(&mut lifetime_name, generics);
-        let lifetime = Lifetime::new(&lifetime_name, Span::call_site());
+        let lifetime = Lifetime::new(lifetime_name, Span::call_site());
 
         let ty_generics = generics.split_for_impl().1;
         let ty_generics_as_generics = parse_quote!(#ty_generics);
diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 2e66247..a63a3ec 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -24,8 +24,8 @@ macro_rules! parse_quote_spanned {
 }
 
 /// Determines the lifetime names. Ensure it doesn't overlap with any existing
-/// lifetime names.
-pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, generics: &mut Generics) {
+/// lifetime names, including those bound by `for<..>` in the types of fields.
+pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, item: &mut Item) {
     struct CollectLifetimes(Vec<String>);
 
     impl VisitMut for CollectLifetimes {
@@ -37,7 +37,7 @@ pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, generics: &mut
     debug_assert!(lifetime_name.starts_with('\''));
 
     let mut lifetimes = CollectLifetimes(vec![]);
-    lifetimes.visit_generics_mut(generics);
+    lifetimes.visit_item_mut(item);
 
     while lifetimes.0.iter().any(|name| name.starts_with(&**lifetime_name)) {
         lifetime_name.push('_');
-- 
2.43.0


From efc640a0e477a9e507054e6f741d7949302f46de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:48 +0000
Subject: [PATCH 04/13] fix: leave pub(self) visibilities alone

The receiver rewriting turned the module path in `pub(self)` into `__self`, so
any item or field with that visibility failed to compile.
---
 pin-project-internal/src/utils.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index a63a3ec..f13abbb 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -7,7 +7,7 @@ use quote::{ToTokens, quote, quote_spanned};
 use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
-    TypeParamBound, TypePath, Variant, Visibility, WherePredicate,
+    TypeParamBound, TypePath, Variant, VisRestricted, Visibility, WherePredicate,
     parse::{Parse, ParseBuffer, ParseStream},
     parse_quote,
     punctuated::Punctuated,
@@ -330,6 +330,10 @@ impl VisitMut for ReplaceReceiver<'_> {
         }
     }
 
+    fn visit_vis_restricted_mut(&mut self, _: &mut VisRestricted) {
+        // `self` in `pub(self)` is a module, not a receiver.
+    }
+
     fn visit_item_mut(&mut self, item: &mut Item) {
         match item {
             // Visit `macro_rules!` because locally defined macros can refer to `self`.
-- 
2.43.0


From e5405dbdcb6b31beb29feddb07590375cfaa77dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:13 +0000
Subject: [PATCH 05/13] fix: resolve Self in macro arguments of a pinned_drop
 body as pattern or constructor

---
 pin-project-internal/src/utils.rs | 49 +++++++++++++------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index f13abbb..1ec2733 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -2,8 +2,8 @@
 
 use std::mem;
 
-use proc_macro2::{Group, Spacing, Span, TokenStream, TokenTree};
-use quote::{ToTokens, quote, quote_spanned};
+use proc_macro2::{Group, Span, TokenStream, TokenTree};
+use quote::{ToTokens, quote};
 use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
@@ -214,13 +214,7 @@ impl ReplaceReceiver<'_> {
 
         let self_ty = self.self_ty(first.ident.span());
         let variant = mem::replace(path, self_ty.path);
-        for segment in &mut path.segments {
-            if let PathArguments::AngleBracketed(bracketed) = &mut segment.arguments {
-                if bracketed.colon2_token.is_none() && !bracketed.args.is_empty() {
-                    bracketed.colon2_token = Some(<Token![::]>::default());
-                }
-            }
-        }
+        insert_turbofish(path);
         if variant.segments.len() > 1 {
             path.segments.push_punct(<Token![::]>::default());
             path.segments.extend(variant.segments.into_pairs().skip(1));
@@ -230,30 +224,18 @@ impl ReplaceReceiver<'_> {
     fn visit_token_stream(&self, tokens: &mut TokenStream) -> bool {
         let mut out = vec![];
         let mut modified = false;
-        let mut iter = tokens.clone().into_iter().peekable();
-        while let Some(tt) = iter.next() {
+        for tt in tokens.clone() {
             match tt {
                 TokenTree::Ident(mut ident) => {
                     modified |= prepend_underscore_to_self(&mut ident);
                     if ident == "Self" {
                         modified = true;
-                        let self_ty = self.self_ty(ident.span());
-                        match iter.peek() {
-                            Some(TokenTree::Punct(p))
-                                if p.as_char() == ':' && p.spacing() == Spacing::Joint =>
-                            {
-                                let next = iter.next().unwrap();
-                                match iter.peek() {
-                                    Some(TokenTree::Punct(p)) if p.as_char() == ':' => {
-                                        let span = ident.span();
-                                        out.extend(quote_spanned!(span=> <#self_ty>));
-                                    }
-                                    _ => out.extend(quote!(#self_ty)),
-                                }
-                                out.push(next);
-                            }
-                            _ => out.extend(quote!(#self_ty)),
-                        }
+                        // `Self` can be used as type, expression, or pattern here. The
+                        // turbofish form is valid in all of them, unlike `Receiver<T>`
+                        // (type only) and `<Receiver<T>>::Variant` (not for patterns).
+                        let mut self_ty = self.self_ty(ident.span());
+                        insert_turbofish(&mut self_ty.path);
+                        out.extend(quote!(#self_ty));
                     } else {
                         out.push(TokenTree::Ident(ident));
                     }
@@ -357,6 +339,17 @@ impl VisitMut for ReplaceReceiver<'_> {
     }
 }
 
+/// `Receiver<T>` -> `Receiver::<T>`
+fn insert_turbofish(path: &mut Path) {
+    for segment in &mut path.segments {
+        if let PathArguments::AngleBracketed(bracketed) = &mut segment.arguments {
+            if bracketed.colon2_token.is_none() && !bracketed.args.is_empty() {
+                bracketed.colon2_token = Some(<Token![::]>::default());
+            }
+        }
+    }
+}
+
 fn contains_fn(tokens: TokenStream) -> bool {
     tokens.into_iter().any(|tt| match tt {
         TokenTree::Ident(ident) => ident == "fn",
-- 
2.43.0


From 411746948e416f513210e11da8be3a5a50cb5621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:26 +0000
Subject: [PATCH 06/13] fix: report a foreign #[pin] on the item instead of
 panicking

---
 pin-project-internal/src/pin_project/args.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pin-project-internal/src/pin_project/args.rs b/pin-project-internal/src/pin_project/args.rs
index 00593dc..b1ad058 100644
--- a/pin-project-internal/src/pin_project/args.rs
+++ b/pin-project-internal/src/pin_project/args.rs
@@ -54,8 +54,11 @@ pub(super) fn parse_args(attrs: &[Attribute]) -> Result<Args> {
         };
         bail!(span, "duplicate #[pin] attribute");
     }
-    // This `unwrap` only fails if another macro removes `#[pin]` and inserts own `#[pin]`.
-    syn::parse2(prev.1.unwrap())
+    match prev {
+        (_, Some(args)) => syn::parse2(args),
+        // This only fails if another macro removes `#[pin]` and inserts own `#[pin]`.
+        (attr, None) => bail!(attr, "#[pin_project] attribute has been removed"),
+    }
 }
 
 pub(super) struct Args {
-- 
2.43.0


From 63d3b809d66d0e0e7f3463214f1036b543c06ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:57 +0000
Subject: [PATCH 07/13] fix: report a default method in a pinned_drop impl
 instead of panicking

---
 pin-project-internal/src/pinned_drop.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pin-project-internal/src/pinned_drop.rs b/pin-project-internal/src/pinned_drop.rs
index 71bed2c..d9671e9 100644
--- a/pin-project-internal/src/pinned_drop.rs
+++ b/pin-project-internal/src/pinned_drop.rs
@@ -91,6 +91,9 @@ fn validate_impl(item: &ItemImpl) -> Result<()> {
         }
         ImplItem::Fn(method) => {
             validate_sig(&method.sig)?;
+            if method.defaultness.is_some() {
+                bail!(method.defaultness, "implementing the method `drop` is not specializable");
+            }
             if i == 0 { Ok(()) } else { bail!(method, "duplicate definitions with name `drop`") }
         }
         item => bail!(item, "only the method `drop` may be defined in an impl of `PinnedDrop`"),
-- 
2.43.0


From d8ebc4044f603d9d67dbfbfff159df06c9161996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:53 +0000
Subject: [PATCH 08/13] fix: keep the projection lifetime apart from lifetimes
 bound in type macros

---
 pin-project-internal/src/utils.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 1ec2733..ca3115e 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -32,6 +32,25 @@ pub(crate) fn determine_lifetime_name(lifetime_name: &mut String, item: &mut Ite
         fn visit_lifetime_param_mut(&mut self, def: &mut LifetimeParam) {
             self.0.push(def.lifetime.to_string());
         }
+
+        // A type macro may be given the binder of a lifetime.
+        fn visit_macro_mut(&mut self, mac: &mut Macro) {
+            self.collect_tokens(mac.tokens.clone());
+        }
+    }
+
+    impl CollectLifetimes {
+        fn collect_tokens(&mut self, tokens: TokenStream) {
+            let mut after_quote = false;
+            for tt in tokens {
+                match &tt {
+                    TokenTree::Ident(ident) if after_quote => self.0.push(format!("'{}", ident)),
+                    TokenTree::Group(group) => self.collect_tokens(group.stream()),
+                    _ => {}
+                }
+                after_quote = matches!(&tt, TokenTree::Punct(punct) if punct.as_char() == '\'');
+            }
+        }
     }
 
     debug_assert!(lifetime_name.starts_with('\''));
-- 
2.43.0


From 7d646aa819869bd87fa47d5b191fd050e8db0159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:54 +0000
Subject: [PATCH 09/13] fix: restore <Receiver>::item for Self in macro
 arguments of a pinned_drop body

This reverts e5405db: with the turbofish form rustc 1.99 aborts (internal
compiler error in incremental builds) on crates last built with the previous
expansion.
---
 pin-project-internal/src/utils.rs | 49 ++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index ca3115e..547f60b 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -2,8 +2,8 @@
 
 use std::mem;
 
-use proc_macro2::{Group, Span, TokenStream, TokenTree};
-use quote::{ToTokens, quote};
+use proc_macro2::{Group, Spacing, Span, TokenStream, TokenTree};
+use quote::{ToTokens, quote, quote_spanned};
 use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
@@ -233,7 +233,13 @@ impl ReplaceReceiver<'_> {
 
         let self_ty = self.self_ty(first.ident.span());
         let variant = mem::replace(path, self_ty.path);
-        insert_turbofish(path);
+        for segment in &mut path.segments {
+            if let PathArguments::AngleBracketed(bracketed) = &mut segment.arguments {
+                if bracketed.colon2_token.is_none() && !bracketed.args.is_empty() {
+                    bracketed.colon2_token = Some(<Token![::]>::default());
+                }
+            }
+        }
         if variant.segments.len() > 1 {
             path.segments.push_punct(<Token![::]>::default());
             path.segments.extend(variant.segments.into_pairs().skip(1));
@@ -243,18 +249,30 @@ impl ReplaceReceiver<'_> {
     fn visit_token_stream(&self, tokens: &mut TokenStream) -> bool {
         let mut out = vec![];
         let mut modified = false;
-        for tt in tokens.clone() {
+        let mut iter = tokens.clone().into_iter().peekable();
+        while let Some(tt) = iter.next() {
             match tt {
                 TokenTree::Ident(mut ident) => {
                     modified |= prepend_underscore_to_self(&mut ident);
                     if ident == "Self" {
                         modified = true;
-                        // `Self` can be used as type, expression, or pattern here. The
-                        // turbofish form is valid in all of them, unlike `Receiver<T>`
-                        // (type only) and `<Receiver<T>>::Variant` (not for patterns).
-                        let mut self_ty = self.self_ty(ident.span());
-                        insert_turbofish(&mut self_ty.path);
-                        out.extend(quote!(#self_ty));
+                        let self_ty = self.self_ty(ident.span());
+                        match iter.peek() {
+                            Some(TokenTree::Punct(p))
+                                if p.as_char() == ':' && p.spacing() == Spacing::Joint =>
+                            {
+                                let next = iter.next().unwrap();
+                                match iter.peek() {
+                                    Some(TokenTree::Punct(p)) if p.as_char() == ':' => {
+                                        let span = ident.span();
+                                        out.extend(quote_spanned!(span=> <#self_ty>));
+                                    }
+                                    _ => out.extend(quote!(#self_ty)),
+                                }
+                                out.push(next);
+                            }
+                            _ => out.extend(quote!(#self_ty)),
+                        }
                     } else {
                         out.push(TokenTree::Ident(ident));
                     }
@@ -358,17 +376,6 @@ impl VisitMut for ReplaceReceiver<'_> {
     }
 }
 
-/// `Receiver<T>` -> `Receiver::<T>`
-fn insert_turbofish(path: &mut Path) {
-    for segment in &mut path.segments {
-        if let PathArguments::AngleBracketed(bracketed) = &mut segment.arguments {
-            if bracketed.colon2_token.is_none() && !bracketed.args.is_empty() {
-                bracketed.colon2_token = Some(<Token![::]>::default());
-            }
-        }
-    }
-}
-
 fn contains_fn(tokens: TokenStream) -> bool {
     tokens.into_iter().any(|tt| match tt {
         TokenTree::Ident(ident) => ident == "fn",
-- 
2.43.0


From b05b3822c59faf7f1f297096eb981cb1209206ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:56 +0000
Subject: [PATCH 10/13] fix: recognize the raw form of #[pin]

The compiler resolves #[r#pin] to the same helper attribute, so it was
accepted and silently ignored: the field was not pinned.
---
 pin-project-internal/src/pin_project/args.rs |  4 ++--
 pin-project-internal/src/utils.rs            | 17 +++++++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pin-project-internal/src/pin_project/args.rs b/pin-project-internal/src/pin_project/args.rs
index b1ad058..043edf8 100644
--- a/pin-project-internal/src/pin_project/args.rs
+++ b/pin-project-internal/src/pin_project/args.rs
@@ -9,7 +9,7 @@ use syn::{
 };
 
 use super::PIN;
-use crate::utils::{ParseBufferExt as _, SliceExt as _};
+use crate::utils::{AttributeExt as _, ParseBufferExt as _, SliceExt as _};
 
 pub(super) fn parse_args(attrs: &[Attribute]) -> Result<Args> {
     // `(__private(<args>))` -> `<args>`
@@ -32,7 +32,7 @@ pub(super) fn parse_args(attrs: &[Attribute]) -> Result<Args> {
         bail!(attr, "duplicate #[pin_project] attribute");
     }
 
-    let mut attrs = attrs.iter().filter(|attr| attr.path().is_ident(PIN));
+    let mut attrs = attrs.iter().filter(|attr| attr.path_is(PIN));
 
     let prev = if let Some(attr) = attrs.next() {
         (attr, syn::parse2::<Input>(attr.meta.require_list()?.tokens.clone())?.0)
diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 547f60b..5979af8 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -8,6 +8,7 @@ use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
     PatStruct, PatTupleStruct, Path, PathArguments, PredicateType, QSelf, Result, Token, Type,
     TypeParamBound, TypePath, Variant, VisRestricted, Visibility, WherePredicate,
+    ext::IdentExt as _,
     parse::{Parse, ParseBuffer, ParseStream},
     parse_quote,
     punctuated::Punctuated,
@@ -140,7 +141,7 @@ impl SliceExt for [Attribute] {
     fn position_exact(&self, ident: &str) -> Result<Option<usize>> {
         self.iter()
             .try_fold((0, None), |(i, mut prev), attr| {
-                if attr.path().is_ident(ident) {
+                if attr.path_is(ident) {
                     if prev.replace(i).is_some() {
                         bail!(attr, "duplicate #[{}] attribute", ident);
                     }
@@ -152,7 +153,19 @@ impl SliceExt for [Attribute] {
     }
 
     fn find(&self, ident: &str) -> Option<&Attribute> {
-        self.iter().position(|attr| attr.path().is_ident(ident)).map(|i| &self[i])
+        self.iter().position(|attr| attr.path_is(ident)).map(|i| &self[i])
+    }
+}
+
+pub(crate) trait AttributeExt {
+    fn path_is(&self, ident: &str) -> bool;
+}
+
+impl AttributeExt for Attribute {
+    /// Unlike `Path::is_ident`, this also recognizes the raw form of `ident`, which
+    /// the compiler resolves to the same attribute.
+    fn path_is(&self, ident: &str) -> bool {
+        self.path().get_ident().map_or(false, |path| path.unraw() == ident)
     }
 }
 
-- 
2.43.0


From 261b56a389af76d09115dce2e70b9a1f0e86dd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:31 +0000
Subject: [PATCH 11/13] fix: leave self:: paths in macro arguments of a
 pinned_drop body alone

`self` in `self::function` is a module, not the receiver. Outside of macro
arguments such paths were already left alone; inside them they were turned
into `__self::function`, which does not resolve.
---
 pin-project-internal/src/utils.rs | 35 +++++++++++++++++--------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 5979af8..6737628 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -266,29 +266,32 @@ impl ReplaceReceiver<'_> {
         while let Some(tt) = iter.next() {
             match tt {
                 TokenTree::Ident(mut ident) => {
-                    modified |= prepend_underscore_to_self(&mut ident);
+                    let colon = match iter.peek() {
+                        Some(TokenTree::Punct(p))
+                            if p.as_char() == ':' && p.spacing() == Spacing::Joint =>
+                        {
+                            iter.next()
+                        }
+                        _ => None,
+                    };
+                    let path_sep = colon.is_some()
+                        && matches!(iter.peek(), Some(TokenTree::Punct(p)) if p.as_char() == ':');
                     if ident == "Self" {
                         modified = true;
                         let self_ty = self.self_ty(ident.span());
-                        match iter.peek() {
-                            Some(TokenTree::Punct(p))
-                                if p.as_char() == ':' && p.spacing() == Spacing::Joint =>
-                            {
-                                let next = iter.next().unwrap();
-                                match iter.peek() {
-                                    Some(TokenTree::Punct(p)) if p.as_char() == ':' => {
-                                        let span = ident.span();
-                                        out.extend(quote_spanned!(span=> <#self_ty>));
-                                    }
-                                    _ => out.extend(quote!(#self_ty)),
-                                }
-                                out.push(next);
-                            }
-                            _ => out.extend(quote!(#self_ty)),
+                        if path_sep {
+                            out.extend(quote_spanned!(ident.span()=> <#self_ty>));
+                        } else {
+                            out.extend(quote!(#self_ty));
                         }
                     } else {
+                        // Replace `self`, but not `self::function`.
+                        if !path_sep {
+                            modified |= prepend_underscore_to_self(&mut ident);
+                        }
                         out.push(TokenTree::Ident(ident));
                     }
+                    out.extend(colon);
                 }
                 TokenTree::Group(group) => {
                     let mut content = group.stream();
-- 
2.43.0


From 257afd550140a4819271dfc7435d99d72daad9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:07 +0000
Subject: [PATCH 12/13] fix: a function pointer type in a macro argument does
 not hide self and Self

---
 pin-project-internal/src/utils.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/pin-project-internal/src/utils.rs b/pin-project-internal/src/utils.rs
index 6737628..b8bc203 100644
--- a/pin-project-internal/src/utils.rs
+++ b/pin-project-internal/src/utils.rs
@@ -2,7 +2,7 @@
 
 use std::mem;
 
-use proc_macro2::{Group, Spacing, Span, TokenStream, TokenTree};
+use proc_macro2::{Delimiter, Group, Spacing, Span, TokenStream, TokenTree};
 use quote::{ToTokens, quote, quote_spanned};
 use syn::{
     Attribute, ExprPath, ExprStruct, Generics, Ident, Item, Lifetime, LifetimeParam, Macro,
@@ -393,11 +393,22 @@ impl VisitMut for ReplaceReceiver<'_> {
 }
 
 fn contains_fn(tokens: TokenStream) -> bool {
-    tokens.into_iter().any(|tt| match tt {
-        TokenTree::Ident(ident) => ident == "fn",
-        TokenTree::Group(group) => contains_fn(group.stream()),
-        _ => false,
-    })
+    let mut iter = tokens.into_iter().peekable();
+    while let Some(tt) = iter.next() {
+        let found = match tt {
+            // `fn(..)` is a function pointer type and has no `self` of its own.
+            TokenTree::Ident(ident) if ident == "fn" => !matches!(
+                iter.peek(),
+                Some(TokenTree::Group(args)) if args.delimiter() == Delimiter::Parenthesis
+            ),
+            TokenTree::Group(group) => contains_fn(group.stream()),
+            _ => false,
+        };
+        if found {
+            return true;
+        }
+    }
+    false
 }
 
 pub(crate) fn prepend_underscore_to_self(ident: &mut Ident) -> bool {
-- 
2.43.0


From dba962f4e072d425149ab10b8ecbca820068dfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:16 +0000
Subject: [PATCH 13/13] fix: reject an ordinary Drop impl on types with an
 unsized last field

The blanket impl that makes an additional Drop impl conflict had an implicit
Sized bound, so that a type which is never Sized could implement Drop and
move its pinned fields in safe code.
---
 pin-project-internal/src/pin_project/derive.rs | 2 +-
 src/lib.rs                                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pin-project-internal/src/pin_project/derive.rs b/pin-project-internal/src/pin_project/derive.rs
index 3aaf8d8..1a4ea2e 100644
--- a/pin-project-internal/src/pin_project/derive.rs
+++ b/pin-project-internal/src/pin_project/derive.rs
@@ -927,7 +927,7 @@ fn make_drop_impl(cx: &Context<'_>) -> TokenStream {
             // This will result in a compilation error, which is exactly what we want.
             trait #trait_ident {}
             #[allow(clippy::drop_bounds, drop_bounds)]
-            impl<T: _pin_project::__private::Drop> #trait_ident for T {}
+            impl<T: ?_pin_project::__private::Sized + _pin_project::__private::Drop> #trait_ident for T {}
             impl #impl_generics #trait_ident for #ident #ty_generics #where_clause {}
 
             // Generate a dummy impl of `PinnedDrop`, to ensure that the user cannot implement it.
diff --git a/src/lib.rs b/src/lib.rs
index acfd341..2c93bae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -187,7 +187,7 @@ pub mod __private {
     use core::mem::ManuallyDrop;
     #[doc(hidden)]
     pub use core::{
-        marker::{PhantomData, PhantomPinned, Unpin},
+        marker::{PhantomData, PhantomPinned, Sized, Unpin},
         ops::Drop,
         pin::Pin,
         ptr,
-- 
2.43.0

