From 2482120491335798cb1244a877ff5bbde83cb2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:03 +0000
Subject: [PATCH 01/18] fix: do not treat return and ? in async blocks as the
 function's own

---
 src/auto_enum/visitor.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index b046fd8..a2aa94e 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -13,7 +13,7 @@ use crate::utils::{Attrs, Node, replace_expr};
 
 #[derive(Clone, Copy, Default)]
 struct Scope {
-    /// in closures
+    /// in closures or async blocks
     closure: bool,
     /// in try blocks
     try_block: bool,
@@ -22,10 +22,11 @@ struct Scope {
 }
 
 impl Scope {
-    // check this scope is in closures or try blocks.
+    // check this scope is in closures, async blocks, or try blocks.
     fn check_expr(&mut self, expr: &Expr) {
         match expr {
-            Expr::Closure(_) => self.closure = true,
+            // `return` and `?` operator in async blocks leave the async block, not the function.
+            Expr::Closure(_) | Expr::Async(_) => self.closure = true,
             // `?` operator in try blocks are not supported.
             Expr::TryBlock(_) => self.try_block = true,
             _ => {}
-- 
2.43.0


From 1d184ff35e205741a22664d0941b1aebbe3aeb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:36 +0000
Subject: [PATCH 02/18] fix: derive a dependency shared by several traits only
 once

---
 src/enum_derive.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index dd85f65..df0b8df 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -266,7 +266,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
             for s in traits.iter().filter(|&x| !args.iter().any(|(s, _)| s == x)) {
-                if !exists_alias(s, &v) {
+                if !exists_alias(s, &v) && !v.iter().any(|(x, _)| x == s) {
                     v.push((s, None));
                 }
             }
-- 
2.43.0


From 1c50dc2abc0ee20d2e9d4aabb9b122e55329413c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:43 +0000
Subject: [PATCH 03/18] fix: do not clash with a generic parameter named R in
 Coroutine

---
 src/derive/core/ops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index f3ca46e..4288603 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -107,7 +107,7 @@ pub(crate) mod coroutine {
         let pin = quote!(::core::pin::Pin);
         let trait_ = parse_quote!(::core::ops::Coroutine);
         let mut impl_ = EnumImpl::from_trait(data, &trait_, None, parse_quote! {
-            trait Coroutine<R> {
+            trait Coroutine<__R> {
                 type Yield;
                 type Return;
             }
@@ -116,14 +116,14 @@ pub(crate) mod coroutine {
 
         let resume = data.variant_idents().zip(data.field_types()).map(|(v, ty)| {
             quote! {
-                #ident::#v(x) => <#ty as #trait_<R>>::resume(#pin::new_unchecked(x), arg),
+                #ident::#v(x) => <#ty as #trait_<__R>>::resume(#pin::new_unchecked(x), arg),
             }
         });
         impl_.items.push(parse_quote! {
             #[inline]
             fn resume(
                 self: #pin<&mut Self>,
-                arg: R,
+                arg: __R,
             ) -> ::core::ops::CoroutineState<Self::Yield, Self::Return> {
                 unsafe {
                     match self.get_unchecked_mut() { #(#resume)* }
-- 
2.43.0


From 4394f555bfe3dc033aef7cb7b7debb6b424cfbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:49 +0000
Subject: [PATCH 04/18] fix: strip impl Trait from let bindings even if the
 trait is also an argument

---
 src/auto_enum/type_analysis.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 7948b02..0aa13fc 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -24,11 +24,11 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                     let ty = path(ty.path.segments.iter().map(|ty| ty.ident.clone().into()));
                     let ty_str = ty.to_token_stream().to_string();
                     let ty_trimmed = ty_str.replace(' ', "");
-                    if TRAITS.contains(&&*ty_trimmed)
-                        && !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str)
-                    {
+                    if TRAITS.contains(&&*ty_trimmed) {
                         self.has_impl_trait = true;
-                        self.traits.push(ty);
+                        if !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str) {
+                            self.traits.push(ty);
+                        }
                     }
                 }
             }
-- 
2.43.0


From c651b3a6d0c7c8a5423368f223413dc801c1d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:55 +0000
Subject: [PATCH 05/18] fix: collect a trait that appears twice in the analyzed
 type only once

---
 src/auto_enum/type_analysis.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/type_analysis.rs b/src/auto_enum/type_analysis.rs
index 0aa13fc..0fc206a 100644
--- a/src/auto_enum/type_analysis.rs
+++ b/src/auto_enum/type_analysis.rs
@@ -26,7 +26,12 @@ pub(super) fn collect_impl_trait(args: &[Path], traits: &mut Vec<Path>, ty: &mut
                     let ty_trimmed = ty_str.replace(' ', "");
                     if TRAITS.contains(&&*ty_trimmed) {
                         self.has_impl_trait = true;
-                        if !self.args.iter().any(|x| x.to_token_stream().to_string() == ty_str) {
+                        if !self
+                            .args
+                            .iter()
+                            .chain(&*self.traits)
+                            .any(|x| x.to_token_stream().to_string() == ty_str)
+                        {
                             self.traits.push(ty);
                         }
                     }
-- 
2.43.0


From d5ec3bb7065abd05f1dce13542c9f8c83a6c3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:02 +0000
Subject: [PATCH 06/18] fix: accept error::Error, which type_analysis collects

---
 src/derive/std/error.rs | 2 +-
 src/enum_derive.rs      | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/derive/std/error.rs b/src/derive/std/error.rs
index d892df9..81e49a7 100644
--- a/src/derive/std/error.rs
+++ b/src/derive/std/error.rs
@@ -2,7 +2,7 @@
 
 use crate::derive::prelude::*;
 
-pub(crate) const NAME: &[&str] = &["Error"];
+pub(crate) const NAME: &[&str] = &["Error", "error::Error"];
 
 pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
     let ident = &data.ident;
diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index df0b8df..8ac6ef4 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -217,7 +217,7 @@ fn get_trait_deps(s: &str) -> Option<&'static [&'static str]> {
         #[cfg(feature = "std")]
         "BufRead" | "io::BufRead" => &["Read"],
         #[cfg(feature = "std")]
-        "Error" => &["Display", "Debug"],
+        "Error" | "error::Error" => &["Display", "Debug"],
         #[cfg(feature = "rayon")]
         "rayon::IndexedParallelIterator" => &["rayon::ParallelIterator"],
         _ => return None,
@@ -252,6 +252,8 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
             std::io::seek,
             #[cfg(feature = "std")]
             std::io::write,
+            #[cfg(feature = "std")]
+            std::error,
         }
 
         None
-- 
2.43.0


From ff0b6bfc5009cf3319807c8e15e2bf96346c00d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:43 +0000
Subject: [PATCH 07/18] fix: do not wrap a break whose label is shadowed by an
 inner loop or block

---
 src/auto_enum/expr.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 3c277fc..0237b98 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -1,9 +1,9 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use syn::{
-    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprIf, ExprLoop, ExprMacro, ExprMatch,
-    ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, Item, Label, Lifetime, LocalInit,
-    Macro, Stmt, StmtMacro, Token,
+    Arm, Block, Expr, ExprBlock, ExprBreak, ExprCall, ExprForLoop, ExprIf, ExprLoop, ExprMacro,
+    ExprMatch, ExprMethodCall, ExprParen, ExprPath, ExprTry, ExprUnsafe, ExprWhile, Item, Label,
+    Lifetime, LocalInit, Macro, Stmt, StmtMacro, Token,
     visit_mut::{self, VisitMut},
 };
 
@@ -172,6 +172,16 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
             match node {
                 // Stop at closure / async block bounds
                 Expr::Closure(_) | Expr::Async(_) => return,
+                // Stop at loops or blocks that shadow the label: the target loop is unreachable
+                // from there, as unlabeled `break` is not allowed in labeled blocks.
+                Expr::Block(ExprBlock { label: Some(label), .. })
+                | Expr::Loop(ExprLoop { label: Some(label), .. })
+                | Expr::ForLoop(ExprForLoop { label: Some(label), .. })
+                | Expr::While(ExprWhile { label: Some(label), .. })
+                    if self.compare_labels(Some(&label.name)) =>
+                {
+                    return;
+                }
                 // Other loop bounds
                 Expr::Loop(_) | Expr::ForLoop(_) | Expr::While(_) => {
                     if self.label.is_none() {
-- 
2.43.0


From 6f2f0e1b88d2d9919a2fb49780d83ab789aa622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:51 +0000
Subject: [PATCH 08/18] fix: expand a braced marker macro at the end of a block

---
 src/auto_enum/visitor.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index a2aa94e..2cd8724 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -1,10 +1,12 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use std::mem;
+
 use proc_macro2::TokenStream;
 use quote::ToTokens as _;
 use syn::{
     Arm, Attribute, Expr, ExprMacro, ExprMatch, ExprReturn, ExprTry, Item, Local, LocalInit,
-    MetaList, Stmt, Token, parse_quote, token,
+    MetaList, Stmt, StmtMacro, Token, parse_quote, token,
     visit_mut::{self, VisitMut},
 };
 
@@ -244,6 +246,14 @@ impl VisitMut for Visitor<'_> {
 
     fn visit_stmt_mut(&mut self, node: &mut Stmt) {
         if !self.cx.has_error() {
+            // `marker! { <expr> }` at the end of a block is parsed as a statement.
+            if let Stmt::Macro(StmtMacro { attrs, mac, semi_token: None }) = node {
+                if self.cx.is_marker_macro_exact(mac) {
+                    let (attrs, mac) = (mem::take(attrs), mac.clone());
+                    *node = Stmt::Expr(Expr::Macro(ExprMacro { attrs, mac }), None);
+                }
+            }
+
             if let Stmt::Expr(expr, semi) = node {
                 self.visit_expr(expr, semi.is_some());
             } else {
-- 
2.43.0


From 905f0accebb7aeb21206c553b9f089a65dfbb980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:30 +0000
Subject: [PATCH 09/18] fix: support enums whose generic parameters have
 defaults in enum_derive

---
 src/enum_derive.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index 8ac6ef4..dd87bc9 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -6,7 +6,7 @@ use derive_utils::EnumData as Data;
 use proc_macro2::TokenStream;
 use quote::{ToTokens as _, quote};
 use syn::{
-    Error, ItemEnum, Path, Result, Token,
+    Error, GenericParam, ItemEnum, Path, Result, Token,
     parse::{Parse, ParseStream},
     parse_quote,
 };
@@ -263,7 +263,25 @@ fn exists_alias(s: &str, v: &[(&str, Option<&Path>)]) -> bool {
 }
 
 fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
-    let data = syn::parse2::<Data>(input)?;
+    let mut item = syn::parse2::<ItemEnum>(input)?;
+    let data = {
+        // Defaults for generic parameters are not allowed in impl blocks.
+        let mut item = item.clone();
+        for param in &mut item.generics.params {
+            match param {
+                GenericParam::Type(param) => {
+                    param.eq_token = None;
+                    param.default = None;
+                }
+                GenericParam::Const(param) => {
+                    param.eq_token = None;
+                    param.default = None;
+                }
+                GenericParam::Lifetime(_) => {}
+            }
+        }
+        syn::parse2::<Data>(item.into_token_stream())?
+    };
     let args = syn::parse2::<Args>(args)?.inner;
     let args = args.iter().fold(vec![], |mut v, (s, arg)| {
         if let Some(traits) = get_trait_deps(s) {
@@ -294,7 +312,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
         }
     }
 
-    let mut item = if cx.needs_pin_projection.get() {
+    if cx.needs_pin_projection.get() {
         // If a user creates their own Unpin or Drop implementation, trait implementations with
         // `Pin<&mut self>` receiver can cause unsoundness.
         //
@@ -319,7 +337,6 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
             },
         ));
 
-        let item: ItemEnum = data.into();
         let name = &item.ident;
         let (impl_generics, ty_generics, where_clause) = item.generics.split_for_impl();
         // Ensure that enum does not implement `Drop`.
@@ -334,10 +351,7 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
                 impl #impl_generics MustNotImplDrop for #name #ty_generics #where_clause {}
             };
         });
-        item
-    } else {
-        data.into()
-    };
+    }
 
     if !derive.is_empty() {
         item.attrs.push(parse_quote!(#[derive(#(#derive),*)]));
-- 
2.43.0


From a634198b7c78b842a22c5a8ad77aec2adf14a4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:46 +0000
Subject: [PATCH 10/18] fix: find markers and #[nested] when no traits are
 listed

---
 src/auto_enum/mod.rs     |  9 ++++++++-
 src/auto_enum/visitor.rs | 29 ++++++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/auto_enum/mod.rs b/src/auto_enum/mod.rs
index fcae069..ad59ec5 100644
--- a/src/auto_enum/mod.rs
+++ b/src/auto_enum/mod.rs
@@ -153,6 +153,8 @@ fn expand_parent_local(cx: &mut Context, local: &mut Local) {
 }
 
 fn expand_parent_item_fn(cx: &mut Context, item: &mut ItemFn) {
+    #[cfg(feature = "type_analysis")]
+    let mut explicit = 0;
     let ItemFn { sig, block, .. } = item;
     if let ReturnType::Type(_, ty) = &mut sig.output {
         match &**ty {
@@ -160,6 +162,10 @@ fn expand_parent_item_fn(cx: &mut Context, item: &mut ItemFn) {
             Type::ImplTrait(_) if cx.visit_last_mode != VisitLastMode::Never => {
                 let count = visitor::visit_fn(cx, &mut **block);
                 cx.visit_mode = VisitMode::Return(count.return_);
+                #[cfg(feature = "type_analysis")]
+                {
+                    explicit = count.explicit;
+                }
             }
 
             // `?` operator
@@ -215,7 +221,8 @@ fn expand_parent_item_fn(cx: &mut Context, item: &mut ItemFn) {
     #[cfg(feature = "type_analysis")]
     {
         if let VisitMode::Return(count) = cx.visit_mode {
-            if cx.args.is_empty() && cx.variant_is_empty() && count < 2 {
+            // Marker macros and `#[nested]` also specify values.
+            if cx.args.is_empty() && cx.variant_is_empty() && explicit == 0 && count < 2 {
                 cx.dummy(item);
                 return;
             }
diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 2cd8724..5b49cb5 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -6,7 +6,7 @@ use proc_macro2::TokenStream;
 use quote::ToTokens as _;
 use syn::{
     Arm, Attribute, Expr, ExprMacro, ExprMatch, ExprReturn, ExprTry, Item, Local, LocalInit,
-    MetaList, Stmt, StmtMacro, Token, parse_quote, token,
+    Macro, MetaList, Stmt, StmtMacro, Token, parse_quote, token,
     visit_mut::{self, VisitMut},
 };
 
@@ -442,6 +442,9 @@ pub(super) fn find_nested(node: &mut impl Node) -> bool {
 pub(super) struct FnCount {
     pub(super) try_: usize,
     pub(super) return_: usize,
+    /// Marker macros and `#[nested]` attributes.
+    #[cfg_attr(not(feature = "type_analysis"), allow(dead_code))]
+    pub(super) explicit: usize,
 }
 
 pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
@@ -451,6 +454,16 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
         count: FnCount,
     }
 
+    impl FnVisitor<'_> {
+        fn visit_marker_macro(&mut self, mac: &Macro) {
+            if (!self.scope.foreign || self.cx.current_marker != DEFAULT_MARKER)
+                && self.cx.is_marker_macro_exact(mac)
+            {
+                self.count.explicit += 1;
+            }
+        }
+    }
+
     impl VisitMut for FnVisitor<'_> {
         fn visit_expr_mut(&mut self, node: &mut Expr) {
             let tmp = self.scope;
@@ -479,6 +492,10 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
                 self.scope.foreign = true;
             }
 
+            if let Expr::Macro(ExprMacro { mac, .. }) = node {
+                self.visit_marker_macro(mac);
+            }
+
             visit_mut::visit_expr_mut(self, node);
 
             self.scope = tmp;
@@ -491,6 +508,10 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
                 self.scope.foreign = true;
             }
 
+            if let Stmt::Macro(StmtMacro { mac, semi_token: None, .. }) = node {
+                self.visit_marker_macro(mac);
+            }
+
             visit_mut::visit_stmt_mut(self, node);
 
             self.scope = tmp;
@@ -499,6 +520,12 @@ pub(super) fn visit_fn(cx: &Context, node: &mut impl Node) -> FnCount {
         fn visit_item_mut(&mut self, _: &mut Item) {
             // Do not recurse into nested items.
         }
+
+        fn visit_attribute_mut(&mut self, attr: &mut Attribute) {
+            if !self.scope.foreign && attr.path().is_ident(NESTED) {
+                self.count.explicit += 1;
+            }
+        }
     }
 
     let mut visitor = FnVisitor { cx, scope: Scope::default(), count: FnCount::default() };
-- 
2.43.0


From 678615fa64d60c621df8629e988e4da9da57e108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:50 +0000
Subject: [PATCH 11/18] fix: keep the edition of the user's block when wrapping
 if branches

Since Rust 2024, temporaries in the tail expression of a block are dropped
before its local variables.
---
 src/utils.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index aa5c608..4a60a98 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -2,7 +2,7 @@
 
 use std::{iter, mem};
 
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use syn::{
     Arm, Attribute, Block, Expr, ExprBlock, ExprCall, ExprPath, ExprTuple, ItemFn, Local, Meta,
     Path, PathSegment, Stmt, StmtMacro, punctuated::Punctuated, token, visit_mut::VisitMut,
@@ -45,8 +45,14 @@ pub(crate) fn replace_block(this: &mut Block, f: impl FnOnce(Block) -> Expr) {
     // `brace_token` of the block that passed to `f` should have `call_site` span.
     // If `f` generates unused braces containing the span of `this.brace_token`,
     // this will cause confusing warnings: https://github.com/rust-lang/rust/issues/71080
-    let stmts = mem::take(&mut this.stmts);
-    this.stmts = vec![Stmt::Expr(f(block(stmts)), None)];
+    let mut b = block(mem::take(&mut this.stmts));
+    if b.stmts.len() > 1 {
+        // Braces are needed here, and their span determines the edition, and thus whether the
+        // temporaries in the tail expression are dropped before the local variables.
+        let span = Span::call_site().resolved_at(this.brace_token.span.join());
+        b.brace_token = token::Brace(span);
+    }
+    this.stmts = vec![Stmt::Expr(f(b), None)];
 }
 
 pub(crate) fn path_eq(path: &syn::Path, expected_crates: &[&str], expected_path: &[&str]) -> bool {
-- 
2.43.0


From 44186adc3f11e3187ccfc72d8a7caac1000063cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:44 +0000
Subject: [PATCH 12/18] fix: do not rely on Sized being in scope in AsRef,
 AsMut and RangeBounds

---
 src/derive/core/convert.rs | 4 ++--
 src/derive/core/ops.rs     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/derive/core/convert.rs b/src/derive/core/convert.rs
index e65d169..76acd3d 100644
--- a/src/derive/core/convert.rs
+++ b/src/derive/core/convert.rs
@@ -7,7 +7,7 @@ pub(crate) mod as_ref {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::convert::AsRef), None, parse_quote! {
-            trait AsRef<__T: ?Sized> {
+            trait AsRef<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn as_ref(&self) -> &__T;
             }
@@ -22,7 +22,7 @@ pub(crate) mod as_mut {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::convert::AsMut), None, parse_quote! {
-            trait AsMut<__T: ?Sized> {
+            trait AsMut<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn as_mut(&mut self) -> &mut __T;
             }
diff --git a/src/derive/core/ops.rs b/src/derive/core/ops.rs
index 4288603..26bc8eb 100644
--- a/src/derive/core/ops.rs
+++ b/src/derive/core/ops.rs
@@ -84,7 +84,7 @@ pub(crate) mod range_bounds {
 
     pub(crate) fn derive(_cx: &Context, data: &Data) -> Result<TokenStream> {
         Ok(derive_trait(data, &parse_quote!(::core::ops::RangeBounds), None, parse_quote! {
-            trait RangeBounds<__T: ?Sized> {
+            trait RangeBounds<__T: ?::core::marker::Sized> {
                 #[inline]
                 fn start_bound(&self) -> ::core::ops::Bound<&__T>;
                 #[inline]
-- 
2.43.0


From e67c7077969bf867110229a4dce1e6db2e2df54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:16 +0000
Subject: [PATCH 13/18] Add a cfg-guarded test hook for in-process harnesses

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index d8c21bb..29d2602 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -923,3 +923,11 @@ pub fn enum_derive(args: TokenStream, input: TokenStream) -> TokenStream {
 pub fn auto_enum(args: TokenStream, input: TokenStream) -> TokenStream {
     crate::auto_enum::attribute(args.into(), input.into()).into()
 }
+
+// Lets an external harness drive the two entry points in-process.
+#[cfg(test)]
+#[allow(unexpected_cfgs)]
+mod vp {
+    #[cfg(auto_enums_vp)]
+    include!(env!("AUTO_ENUMS_VP_HARNESS"));
+}
-- 
2.43.0


From 9acd0b8b62732c7450465938ca609e6b1c808db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:08 +0000
Subject: [PATCH 14/18] fix: expand a braced marker macro only where it is the
 value of a block

---
 src/auto_enum/visitor.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/auto_enum/visitor.rs b/src/auto_enum/visitor.rs
index 5b49cb5..1ef0b48 100644
--- a/src/auto_enum/visitor.rs
+++ b/src/auto_enum/visitor.rs
@@ -5,7 +5,7 @@ use std::mem;
 use proc_macro2::TokenStream;
 use quote::ToTokens as _;
 use syn::{
-    Arm, Attribute, Expr, ExprMacro, ExprMatch, ExprReturn, ExprTry, Item, Local, LocalInit,
+    Arm, Attribute, Block, Expr, ExprMacro, ExprMatch, ExprReturn, ExprTry, Item, Local, LocalInit,
     Macro, MetaList, Stmt, StmtMacro, Token, parse_quote, token,
     visit_mut::{self, VisitMut},
 };
@@ -244,16 +244,21 @@ impl VisitMut for Visitor<'_> {
         }
     }
 
-    fn visit_stmt_mut(&mut self, node: &mut Stmt) {
-        if !self.cx.has_error() {
-            // `marker! { <expr> }` at the end of a block is parsed as a statement.
-            if let Stmt::Macro(StmtMacro { attrs, mac, semi_token: None }) = node {
+    fn visit_block_mut(&mut self, node: &mut Block) {
+        // `marker! { <expr> }` at the end of a block is parsed as a statement.
+        if let Some(stmt) = node.stmts.last_mut() {
+            if let Stmt::Macro(StmtMacro { attrs, mac, semi_token: None }) = stmt {
                 if self.cx.is_marker_macro_exact(mac) {
                     let (attrs, mac) = (mem::take(attrs), mac.clone());
-                    *node = Stmt::Expr(Expr::Macro(ExprMacro { attrs, mac }), None);
+                    *stmt = Stmt::Expr(Expr::Macro(ExprMacro { attrs, mac }), None);
                 }
             }
+        }
+        visit_mut::visit_block_mut(self, node);
+    }
 
+    fn visit_stmt_mut(&mut self, node: &mut Stmt) {
+        if !self.cx.has_error() {
             if let Stmt::Expr(expr, semi) = node {
                 self.visit_expr(expr, semi.is_some());
             } else {
-- 
2.43.0


From 819fe07ff99e0c70e93f5481579c8bdb9a6a62ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:09 +0000
Subject: [PATCH 15/18] fix: do not panic on a field type that ends with a plus
 in enum_derive

---
 src/enum_derive.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index dd87bc9..a771e07 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -6,7 +6,7 @@ use derive_utils::EnumData as Data;
 use proc_macro2::TokenStream;
 use quote::{ToTokens as _, quote};
 use syn::{
-    Error, GenericParam, ItemEnum, Path, Result, Token,
+    Error, GenericParam, ItemEnum, Path, Result, Token, Type, TypeImplTrait, TypeTraitObject,
     parse::{Parse, ParseStream},
     parse_quote,
 };
@@ -280,6 +280,19 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
                 GenericParam::Lifetime(_) => {}
             }
         }
+        // `dyn Trait +` cannot be followed by the `as` of a qualified path without parentheses.
+        for field in item.variants.iter_mut().flat_map(|v| &mut v.fields) {
+            match &field.ty {
+                Type::TraitObject(TypeTraitObject { bounds, .. })
+                | Type::ImplTrait(TypeImplTrait { bounds, .. })
+                    if bounds.trailing_punct() =>
+                {
+                    let ty = &field.ty;
+                    field.ty = parse_quote!((#ty));
+                }
+                _ => {}
+            }
+        }
         syn::parse2::<Data>(item.into_token_stream())?
     };
     let args = syn::parse2::<Args>(args)?.inner;
-- 
2.43.0


From d7444057cc657554bc5e4a82ff64832ea30a2542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:34 +0000
Subject: [PATCH 16/18] fix: reject a duplicated marker name at every depth

---
 src/auto_enum/context.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/auto_enum/context.rs b/src/auto_enum/context.rs
index d98aeb1..1e2c599 100644
--- a/src/auto_enum/context.rs
+++ b/src/auto_enum/context.rs
@@ -1,7 +1,7 @@
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
 use std::{
-    cell::RefCell, collections::hash_map::DefaultHasher, hash::Hasher as _, iter, mem, thread,
+    cell::RefCell, collections::hash_map::DefaultHasher, hash::Hasher as _, iter, thread,
 };
 
 use proc_macro2::TokenStream;
@@ -132,17 +132,13 @@ impl Context {
             span,
             args,
             false,
-            mem::take(&mut self.markers),
+            self.markers.clone(),
             self.error.borrow_mut().as_mut().unwrap().take(),
         )
     }
 
     /// Merge a child `Context` into a parent context `self`.
-    pub(super) fn join_child(&mut self, mut child: Self) {
-        debug_assert!(self.markers.is_empty());
-        child.markers.pop();
-        mem::swap(&mut self.markers, &mut child.markers);
-
+    pub(super) fn join_child(&mut self, child: Self) {
         if let Some(message) = child.error.borrow_mut().take().unwrap() {
             self.error(message);
         }
-- 
2.43.0


From 97e1de2512ec9799cdd4ada433fd670298fcff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:28 +0000
Subject: [PATCH 17/18] fix: wrap a break in the iterator expression of a for
 loop

The iterator is evaluated outside of the for loop, so an unlabelled break
in it belongs to the annotated loop around it and is one of its branches.
---
 src/auto_enum/expr.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/auto_enum/expr.rs b/src/auto_enum/expr.rs
index 0237b98..fd19e1e 100644
--- a/src/auto_enum/expr.rs
+++ b/src/auto_enum/expr.rs
@@ -168,6 +168,11 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
                 return;
             }
 
+            // The iterator of `for` is evaluated outside of that loop.
+            if let Expr::ForLoop(ExprForLoop { expr, .. }) = node {
+                self.visit_expr_mut(expr);
+            }
+
             let tmp = self.nested;
             match node {
                 // Stop at closure / async block bounds
@@ -202,6 +207,11 @@ fn visit_last_expr_loop(cx: &mut Context, expr: &mut ExprLoop) {
             self.nested = tmp;
         }
 
+        fn visit_expr_for_loop_mut(&mut self, node: &mut ExprForLoop) {
+            // The iterator has already been visited.
+            self.visit_block_mut(&mut node.body);
+        }
+
         fn visit_item_mut(&mut self, _: &mut Item) {
             // Do not recurse into nested items.
         }
-- 
2.43.0


From 8b7e1c1daa57ce468076efe613158643c561594f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:45 +0000
Subject: [PATCH 18/18] fix: parenthesize field types that a where clause reads
 otherwise

`<T>::Item` and `for<'a> fn(&'a T)` were taken for generic parameters and
higher-ranked bounds of the generated where clauses.
---
 src/enum_derive.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/enum_derive.rs b/src/enum_derive.rs
index a771e07..5d672f3 100644
--- a/src/enum_derive.rs
+++ b/src/enum_derive.rs
@@ -6,7 +6,8 @@ use derive_utils::EnumData as Data;
 use proc_macro2::TokenStream;
 use quote::{ToTokens as _, quote};
 use syn::{
-    Error, GenericParam, ItemEnum, Path, Result, Token, Type, TypeImplTrait, TypeTraitObject,
+    Error, GenericParam, ItemEnum, Path, Result, Token, Type, TypeImplTrait, TypePath,
+    TypeTraitObject,
     parse::{Parse, ParseStream},
     parse_quote,
 };
@@ -280,17 +281,20 @@ fn expand(args: TokenStream, input: TokenStream) -> Result<TokenStream> {
                 GenericParam::Lifetime(_) => {}
             }
         }
-        // `dyn Trait +` cannot be followed by the `as` of a qualified path without parentheses.
+        // These types need parentheses where the generated code puts them: `dyn Trait +` cannot be
+        // followed by the `as` of a qualified path, and `<T>::Item` and `for<'a> fn(&'a T)` mean
+        // something else at the beginning of a where clause.
         for field in item.variants.iter_mut().flat_map(|v| &mut v.fields) {
-            match &field.ty {
+            let ambiguous = match &field.ty {
                 Type::TraitObject(TypeTraitObject { bounds, .. })
-                | Type::ImplTrait(TypeImplTrait { bounds, .. })
-                    if bounds.trailing_punct() =>
-                {
-                    let ty = &field.ty;
-                    field.ty = parse_quote!((#ty));
-                }
-                _ => {}
+                | Type::ImplTrait(TypeImplTrait { bounds, .. }) => bounds.trailing_punct(),
+                Type::Path(TypePath { qself: Some(qself), .. }) => qself.as_token.is_none(),
+                Type::BareFn(ty) => ty.lifetimes.is_some(),
+                _ => false,
+            };
+            if ambiguous {
+                let ty = &field.ty;
+                field.ty = parse_quote!((#ty));
             }
         }
         syn::parse2::<Data>(item.into_token_stream())?
-- 
2.43.0

