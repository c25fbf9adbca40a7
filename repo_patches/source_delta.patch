From cc1abe90342286b62559f638729c7e6020261a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 1/7] fix: derive(Serialize) on an enum without variants

The generated match on a reference is not exhaustive when there are no arms,
so the derive failed to compile. Match on the place instead.
---
 derive/src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/ser.rs b/derive/src/ser.rs
index e2de0f8..dbbf0b5 100644
--- a/derive/src/ser.rs
+++ b/derive/src/ser.rs
@@ -118,7 +118,7 @@ fn derive_enum(input: &DeriveInput, enumeration: &DataEnum) -> Result<TokenStrea
         const _: () = {
             impl miniserde::Serialize for #ident {
                 fn begin(&self) -> miniserde::ser::Fragment {
-                    match self {
+                    match *self {
                         #(
                             #ident::#var_idents => {
                                 miniserde::ser::Fragment::Str(miniserde::__private::Cow::Borrowed(#names))
-- 
2.43.0


From 672615359f21728582e1df1990beaf115fbba984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:59 +0000
Subject: [PATCH 2/7] fix: derive(Deserialize) next to items that share a name
 with a field

The generated code bound local variables named after the fields (and 's' and
'value'), which does not compile when a constant, static or unit struct of that
name is in scope, and called an unqualified Ok.
---
 derive/src/de.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/derive/src/de.rs b/derive/src/de.rs
index 8f0768b..401d8c2 100644
--- a/derive/src/de.rs
+++ b/derive/src/de.rs
@@ -72,7 +72,7 @@ pub fn derive_struct(input: &DeriveInput, fields: &FieldsNamed) -> Result<TokenS
 
             impl #impl_generics miniserde::de::Visitor for __Visitor #ty_generics #bounded_where_clause {
                 fn map(&mut self) -> miniserde::Result<miniserde::__private::Box<dyn miniserde::de::Map + '_>> {
-                    Ok(miniserde::__private::Box::new(__State {
+                    miniserde::__private::Ok(miniserde::__private::Box::new(__State {
                         #(
                             #fieldname: miniserde::Deserialize::default(),
                         )*
@@ -99,12 +99,9 @@ pub fn derive_struct(input: &DeriveInput, fields: &FieldsNamed) -> Result<TokenS
                 }
 
                 fn finish(&mut self) -> miniserde::Result<()> {
-                    #(
-                        let #fieldname = self.#fieldname.take().ok_or(miniserde::Error)?;
-                    )*
                     *self.__out = miniserde::__private::Some(#ident {
                         #(
-                            #fieldname,
+                            #fieldname: self.#fieldname.take().ok_or(miniserde::Error)?,
                         )*
                     });
                     miniserde::__private::Ok(())
@@ -162,12 +159,12 @@ pub fn derive_enum(input: &DeriveInput, enumeration: &DataEnum) -> Result<TokenS
             }
 
             impl miniserde::de::Visitor for __Visitor {
-                fn string(&mut self, s: &miniserde::__private::str) -> miniserde::Result<()> {
-                    let value = match s {
+                fn string(&mut self, __s: &miniserde::__private::str) -> miniserde::Result<()> {
+                    let __value = match __s {
                         #( #names => #ident::#var_idents, )*
                         _ => return miniserde::__private::Err(miniserde::Error),
                     };
-                    self.__out = miniserde::__private::Some(value);
+                    self.__out = miniserde::__private::Some(__value);
                     miniserde::__private::Ok(())
                 }
             }
-- 
2.43.0


From fb80d81c7b9bfd2f30c637a63002f66b2faf1056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:16 +0000
Subject: [PATCH 3/7] fix: derive(Deserialize) on structs whose field types
 mention Self

The field types are repeated in the generated builder struct, where Self is the
builder, so e.g. Option<Box<Self>> did not compile.
---
 derive/src/bound.rs | 19 ++++++++++++++++++-
 derive/src/de.rs    |  8 ++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/derive/src/bound.rs b/derive/src/bound.rs
index bc35003..85c848e 100644
--- a/derive/src/bound.rs
+++ b/derive/src/bound.rs
@@ -1,4 +1,4 @@
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Group, Span, TokenStream, TokenTree};
 use syn::punctuated::Punctuated;
 use syn::{
     parse_quote, GenericParam, Generics, Lifetime, LifetimeParam, TypeParamBound, WhereClause,
@@ -49,3 +49,20 @@ pub fn where_clause_with_bound(generics: &Generics, bound: TokenStream) -> Where
         .extend(new_predicates);
     generics.where_clause.unwrap()
 }
+
+/// Spells out the type that `Self` refers to, for use outside of its definition.
+pub fn replace_self(tokens: TokenStream, self_ty: &TokenStream) -> TokenStream {
+    tokens
+        .into_iter()
+        .flat_map(|token| match token {
+            TokenTree::Ident(ident) if ident == "Self" => self_ty.clone(),
+            TokenTree::Group(group) => {
+                let stream = replace_self(group.stream(), self_ty);
+                let mut replaced = Group::new(group.delimiter(), stream);
+                replaced.set_span(group.span());
+                TokenStream::from(TokenTree::Group(replaced))
+            }
+            token => TokenStream::from(token),
+        })
+        .collect()
+}
diff --git a/derive/src/de.rs b/derive/src/de.rs
index 401d8c2..047f2a1 100644
--- a/derive/src/de.rs
+++ b/derive/src/de.rs
@@ -1,6 +1,6 @@
 use crate::{attr, bound, fallback};
 use proc_macro2::{Span, TokenStream};
-use quote::quote;
+use quote::{quote, ToTokens};
 use syn::{
     parse_quote, Data, DataEnum, DataStruct, DeriveInput, Error, Fields, FieldsNamed, Result,
 };
@@ -38,7 +38,11 @@ pub fn derive_struct(input: &DeriveInput, fields: &FieldsNamed) -> Result<TokenS
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let fieldname = fields.named.iter().map(|f| &f.ident).collect::<Vec<_>>();
-    let fieldty = fields.named.iter().map(|f| &f.ty);
+    let self_ty = quote!(#ident #ty_generics);
+    let fieldty = fields
+        .named
+        .iter()
+        .map(|f| bound::replace_self(f.ty.to_token_stream(), &self_ty));
     let fieldstr = fields
         .named
         .iter()
-- 
2.43.0


From 1d220690587a87fba55a974794fdb23958d4aa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:58 +0000
Subject: [PATCH 4/7] fix: keep dropping builders innermost first when the drop
 of one panics

---
 src/json/de.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/json/de.rs b/src/json/de.rs
index 926c3ee..17b4069 100644
--- a/src/json/de.rs
+++ b/src/json/de.rs
@@ -50,9 +50,23 @@ enum Layer<'a> {
 
 impl<'a, 'b> Drop for Deserializer<'a, 'b> {
     fn drop(&mut self) {
+        // Dropping one layer can panic, in which case the remaining ones, which
+        // it may be borrowed from, still need to be dropped in reverse order.
+        struct Remaining<'s, 'b>(&'s mut Vec<(NonNull<dyn Visitor>, Layer<'b>)>);
+
+        impl<'s, 'b> Drop for Remaining<'s, 'b> {
+            fn drop(&mut self) {
+                while !self.0.is_empty() {
+                    self.0.pop();
+                }
+            }
+        }
+
+        let remaining = Remaining(&mut self.stack);
+
         // Drop layers in reverse order.
-        while !self.stack.is_empty() {
-            self.stack.pop();
+        while !remaining.0.is_empty() {
+            remaining.0.pop();
         }
     }
 }
-- 
2.43.0


From bf4f29f599336316e5ca1a957416928650adae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:35 +0000
Subject: [PATCH 5/7] fix: drop the remaining elements of a partial array when
 the drop of one panics

---
 src/de/impls.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/de/impls.rs b/src/de/impls.rs
index 4982912..4e840d0 100644
--- a/src/de/impls.rs
+++ b/src/de/impls.rs
@@ -527,9 +527,10 @@ where
 
         impl<'a, T: 'a, const N: usize> Drop for ArrayBuilder<'a, T, N> {
             fn drop(&mut self) {
-                for element in &mut self.array[..self.len] {
-                    unsafe { ptr::drop_in_place(element.assume_init_mut()) };
-                }
+                // As a whole slice, so that the remaining elements still get
+                // dropped if dropping one of them panics.
+                let elements: *mut [MaybeUninit<T>] = &mut self.array[..self.len];
+                unsafe { ptr::drop_in_place(elements as *mut [T]) };
             }
         }
 
-- 
2.43.0


From 13df1c452cb31669172fdbd7441159c87dc0e479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:08 +0000
Subject: [PATCH 6/7] fix: do not overflow the exponent of numbers with
 gigabytes of digits

---
 src/json/de.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/json/de.rs b/src/json/de.rs
index 17b4069..2ebfdcd 100644
--- a/src/json/de.rs
+++ b/src/json/de.rs
@@ -465,8 +465,7 @@ impl<'a, 'b> Deserializer<'a, 'b> {
                 b'0'..=b'9' => {
                     self.bump();
                     // This could overflow... if your integer is gigabytes long.
-                    // Ignore that possibility.
-                    exponent += 1;
+                    exponent = exponent.saturating_add(1);
                 }
                 b'.' => {
                     return self.parse_decimal(nonnegative, significand, exponent);
@@ -526,7 +525,7 @@ impl<'a, 'b> Deserializer<'a, 'b> {
             }
 
             significand = significand * 10 + digit;
-            exponent -= 1;
+            exponent = exponent.saturating_sub(1);
         }
 
         if !at_least_one_digit {
-- 
2.43.0


From 364d59bb8c22c8741b05ce0864734708c40d48bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:23 +0000
Subject: [PATCH 7/7] fix: derive on structs with a const parameter named like
 a type in scope

A const parameter that is passed on as a plain path means the type of that
name when there is one, which does not compile. Pass it in braces.
---
 derive/src/bound.rs | 19 +++++++++++++++++++
 derive/src/de.rs    |  6 ++++--
 derive/src/ser.rs   |  6 ++++--
 3 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/derive/src/bound.rs b/derive/src/bound.rs
index 85c848e..5ffc0ec 100644
--- a/derive/src/bound.rs
+++ b/derive/src/bound.rs
@@ -1,4 +1,5 @@
 use proc_macro2::{Group, Span, TokenStream, TokenTree};
+use quote::{quote, ToTokens};
 use syn::punctuated::Punctuated;
 use syn::{
     parse_quote, GenericParam, Generics, Lifetime, LifetimeParam, TypeParamBound, WhereClause,
@@ -50,6 +51,24 @@ pub fn where_clause_with_bound(generics: &Generics, bound: TokenStream) -> Where
     generics.where_clause.unwrap()
 }
 
+/// Like the type generics from `split_for_impl`, but with the const parameters in
+/// braces because a type of the same name in scope would take precedence.
+pub fn ty_generics(generics: &Generics) -> TokenStream {
+    if generics.params.is_empty() {
+        return TokenStream::new();
+    }
+    let lifetimes = generics.lifetimes().map(|param| &param.lifetime);
+    let rest = generics.params.iter().filter_map(|param| match param {
+        GenericParam::Lifetime(_) => None,
+        GenericParam::Type(param) => Some(param.ident.to_token_stream()),
+        GenericParam::Const(param) => {
+            let ident = &param.ident;
+            Some(quote!({ #ident }))
+        }
+    });
+    quote!(<#(#lifetimes,)* #(#rest),*>)
+}
+
 /// Spells out the type that `Self` refers to, for use outside of its definition.
 pub fn replace_self(tokens: TokenStream, self_ty: &TokenStream) -> TokenStream {
     tokens
diff --git a/derive/src/de.rs b/derive/src/de.rs
index 047f2a1..ab898aa 100644
--- a/derive/src/de.rs
+++ b/derive/src/de.rs
@@ -35,7 +35,8 @@ fn try_expand(input: &DeriveInput) -> Result<TokenStream> {
 
 pub fn derive_struct(input: &DeriveInput, fields: &FieldsNamed) -> Result<TokenStream> {
     let ident = &input.ident;
-    let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
+    let (impl_generics, _, where_clause) = input.generics.split_for_impl();
+    let ty_generics = bound::ty_generics(&input.generics);
 
     let fieldname = fields.named.iter().map(|f| &f.ident).collect::<Vec<_>>();
     let self_ty = quote!(#ident #ty_generics);
@@ -50,7 +51,8 @@ pub fn derive_struct(input: &DeriveInput, fields: &FieldsNamed) -> Result<TokenS
         .collect::<Result<Vec<_>>>()?;
 
     let wrapper_generics = bound::with_lifetime_bound(&input.generics, "'__a");
-    let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
+    let (wrapper_impl_generics, _, _) = wrapper_generics.split_for_impl();
+    let wrapper_ty_generics = bound::ty_generics(&wrapper_generics);
     let bound = parse_quote!(miniserde::Deserialize);
     let bounded_where_clause = bound::where_clause_with_bound(&input.generics, bound);
 
diff --git a/derive/src/ser.rs b/derive/src/ser.rs
index dbbf0b5..9362f5c 100644
--- a/derive/src/ser.rs
+++ b/derive/src/ser.rs
@@ -35,7 +35,8 @@ fn try_expand(input: &DeriveInput) -> Result<TokenStream> {
 
 fn derive_struct(input: &DeriveInput, fields: &FieldsNamed) -> Result<TokenStream> {
     let ident = &input.ident;
-    let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
+    let (impl_generics, _, where_clause) = input.generics.split_for_impl();
+    let ty_generics = bound::ty_generics(&input.generics);
 
     let fieldname = &fields.named.iter().map(|f| &f.ident).collect::<Vec<_>>();
     let fieldstr = fields
@@ -46,7 +47,8 @@ fn derive_struct(input: &DeriveInput, fields: &FieldsNamed) -> Result<TokenStrea
     let index = 0usize..;
 
     let wrapper_generics = bound::with_lifetime_bound(&input.generics, "'__a");
-    let (wrapper_impl_generics, wrapper_ty_generics, _) = wrapper_generics.split_for_impl();
+    let (wrapper_impl_generics, _, _) = wrapper_generics.split_for_impl();
+    let wrapper_ty_generics = bound::ty_generics(&wrapper_generics);
     let bound = parse_quote!(miniserde::Serialize);
     let bounded_where_clause = bound::where_clause_with_bound(&input.generics, bound);
 
-- 
2.43.0

