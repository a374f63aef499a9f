From c6d9aa3c8ada2ce0f4e542307cfa41ba4a1eb972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 1/4] fix: drop remaining layers in reverse order when dropping
 one panics

If a parse fails and the destructor of a user's Seq or Map panics while the
layers are being dropped, the remaining ones were dropped by Vec in forward
order, so inner layers could access outer ones that had been freed.
---
 src/json/de.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/json/de.rs b/src/json/de.rs
index 926c3ee..ca351de 100644
--- a/src/json/de.rs
+++ b/src/json/de.rs
@@ -51,8 +51,22 @@ enum Layer<'a> {
 impl<'a, 'b> Drop for Deserializer<'a, 'b> {
     fn drop(&mut self) {
         // Drop layers in reverse order.
-        while !self.stack.is_empty() {
-            self.stack.pop();
+        let layers = Layers(&mut self.stack);
+        while !layers.0.is_empty() {
+            layers.0.pop();
+        }
+    }
+}
+
+// If dropping a layer panics, keeps dropping the remaining ones in the correct
+// order. Without this, they would be dropped in the order they are stored in
+// the Vec, in which a layer might access an outer one that is already gone.
+struct Layers<'a, 'b>(&'a mut Vec<(NonNull<dyn Visitor>, Layer<'b>)>);
+
+impl<'a, 'b> Drop for Layers<'a, 'b> {
+    fn drop(&mut self) {
+        while !self.0.is_empty() {
+            self.0.pop();
         }
     }
 }
-- 
2.43.0


From 98ec0e69d20592467aa12351a6538b4bfad11ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 2/4] fix: derived Deserialize no longer clashes with names in
 the user's scope

---
 derive/src/de.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/derive/src/de.rs b/derive/src/de.rs
index 8f0768b..401d8c2 100644
--- a/derive/src/de.rs
+++ b/derive/src/de.rs
@@ -72,7 +72,7 @@ pub fn derive_struct(input: &DeriveInput, fields: &FieldsNamed) -> Result<TokenS
 
             impl #impl_generics miniserde::de::Visitor for __Visitor #ty_generics #bounded_where_clause {
                 fn map(&mut self) -> miniserde::Result<miniserde::__private::Box<dyn miniserde::de::Map + '_>> {
-                    Ok(miniserde::__private::Box::new(__State {
+                    miniserde::__private::Ok(miniserde::__private::Box::new(__State {
                         #(
                             #fieldname: miniserde::Deserialize::default(),
                         )*
@@ -99,12 +99,9 @@ pub fn derive_struct(input: &DeriveInput, fields: &FieldsNamed) -> Result<TokenS
                 }
 
                 fn finish(&mut self) -> miniserde::Result<()> {
-                    #(
-                        let #fieldname = self.#fieldname.take().ok_or(miniserde::Error)?;
-                    )*
                     *self.__out = miniserde::__private::Some(#ident {
                         #(
-                            #fieldname,
+                            #fieldname: self.#fieldname.take().ok_or(miniserde::Error)?,
                         )*
                     });
                     miniserde::__private::Ok(())
@@ -162,12 +159,12 @@ pub fn derive_enum(input: &DeriveInput, enumeration: &DataEnum) -> Result<TokenS
             }
 
             impl miniserde::de::Visitor for __Visitor {
-                fn string(&mut self, s: &miniserde::__private::str) -> miniserde::Result<()> {
-                    let value = match s {
+                fn string(&mut self, __s: &miniserde::__private::str) -> miniserde::Result<()> {
+                    let __value = match __s {
                         #( #names => #ident::#var_idents, )*
                         _ => return miniserde::__private::Err(miniserde::Error),
                     };
-                    self.__out = miniserde::__private::Some(value);
+                    self.__out = miniserde::__private::Some(__value);
                     miniserde::__private::Ok(())
                 }
             }
-- 
2.43.0


From e61379e48ecab3574aa252e9dc2241aef67e411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:59 +0000
Subject: [PATCH 3/4] fix: derive(Serialize) on an enum without variants

---
 derive/src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/derive/src/ser.rs b/derive/src/ser.rs
index e2de0f8..dbbf0b5 100644
--- a/derive/src/ser.rs
+++ b/derive/src/ser.rs
@@ -118,7 +118,7 @@ fn derive_enum(input: &DeriveInput, enumeration: &DataEnum) -> Result<TokenStrea
         const _: () = {
             impl miniserde::Serialize for #ident {
                 fn begin(&self) -> miniserde::ser::Fragment {
-                    match self {
+                    match *self {
                         #(
                             #ident::#var_idents => {
                                 miniserde::ser::Fragment::Str(miniserde::__private::Cow::Borrowed(#names))
-- 
2.43.0


From b81017806d366b958435876cd73f57b4014fa739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:29 +0000
Subject: [PATCH 4/4] fix: derives on a struct whose fields or bounds mention
 Self

---
 derive/src/de.rs       |  3 ++-
 derive/src/lib.rs      |  1 +
 derive/src/receiver.rs | 43 ++++++++++++++++++++++++++++++++++++++++++
 derive/src/ser.rs      |  3 ++-
 4 files changed, 48 insertions(+), 2 deletions(-)
 create mode 100644 derive/src/receiver.rs

diff --git a/derive/src/de.rs b/derive/src/de.rs
index 401d8c2..90ea54c 100644
--- a/derive/src/de.rs
+++ b/derive/src/de.rs
@@ -1,4 +1,4 @@
-use crate::{attr, bound, fallback};
+use crate::{attr, bound, fallback, receiver};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::{
@@ -16,6 +16,7 @@ pub fn derive(input: &DeriveInput) -> TokenStream {
 }
 
 fn try_expand(input: &DeriveInput) -> Result<TokenStream> {
+    let input = &receiver::replace_self(input)?;
     match &input.data {
         Data::Struct(DataStruct {
             fields: Fields::Named(fields),
diff --git a/derive/src/lib.rs b/derive/src/lib.rs
index 70c0f75..ee2b925 100644
--- a/derive/src/lib.rs
+++ b/derive/src/lib.rs
@@ -10,6 +10,7 @@ mod attr;
 mod bound;
 mod de;
 mod fallback;
+mod receiver;
 mod ser;
 
 use proc_macro::TokenStream;
diff --git a/derive/src/receiver.rs b/derive/src/receiver.rs
new file mode 100644
index 0000000..5d8f9fc
--- /dev/null
+++ b/derive/src/receiver.rs
@@ -0,0 +1,43 @@
+use proc_macro2::{Group, Spacing, TokenStream, TokenTree};
+use quote::{quote_spanned, ToTokens};
+use syn::{DeriveInput, Result};
+
+/// Spell out `Self` in the types and bounds of the input. They are repeated in
+/// the helper types of the expansion, where `Self` would be the helper type.
+pub fn replace_self(input: &DeriveInput) -> Result<DeriveInput> {
+    syn::parse2(replace(input, input.to_token_stream()))
+}
+
+fn replace(input: &DeriveInput, tokens: TokenStream) -> TokenStream {
+    let ident = &input.ident;
+    let (_impl_generics, ty_generics, _where_clause) = input.generics.split_for_impl();
+    let tokens = Vec::from_iter(tokens);
+    let mut replaced = TokenStream::new();
+    for (i, token) in tokens.iter().enumerate() {
+        replaced.extend(match token {
+            TokenTree::Ident(receiver) if receiver == "Self" => {
+                if is_path_sep(&tokens[i + 1..]) {
+                    quote_spanned!(receiver.span()=> <#ident #ty_generics>)
+                } else {
+                    quote_spanned!(receiver.span()=> #ident #ty_generics)
+                }
+            }
+            TokenTree::Group(group) => {
+                let mut new = Group::new(group.delimiter(), replace(input, group.stream()));
+                new.set_span(group.span());
+                TokenTree::Group(new).into()
+            }
+            _ => token.clone().into(),
+        });
+    }
+    replaced
+}
+
+fn is_path_sep(tokens: &[TokenTree]) -> bool {
+    match tokens {
+        [TokenTree::Punct(first), TokenTree::Punct(second), ..] => {
+            first.as_char() == ':' && first.spacing() == Spacing::Joint && second.as_char() == ':'
+        }
+        _ => false,
+    }
+}
diff --git a/derive/src/ser.rs b/derive/src/ser.rs
index dbbf0b5..779a864 100644
--- a/derive/src/ser.rs
+++ b/derive/src/ser.rs
@@ -1,4 +1,4 @@
-use crate::{attr, bound, fallback};
+use crate::{attr, bound, fallback, receiver};
 use proc_macro2::{Span, TokenStream};
 use quote::quote;
 use syn::{
@@ -16,6 +16,7 @@ pub fn derive(input: &DeriveInput) -> TokenStream {
 }
 
 fn try_expand(input: &DeriveInput) -> Result<TokenStream> {
+    let input = &receiver::replace_self(input)?;
     match &input.data {
         Data::Struct(DataStruct {
             fields: Fields::Named(fields),
-- 
2.43.0

