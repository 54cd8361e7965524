From 5fcd481c4a6fb2a070cb8967d41732a5a8a8d406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 01/12] fix: decode 256-bit integers that are followed by
 further bytes

---
 scale-decode/src/visitor/decode.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 52af01a..e90b98b 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -215,12 +215,10 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
             data: &mut &'scale [u8],
         ) -> Result<&'scale [u8; 32], DecodeError> {
             // Pull an array from the data if we can, preserving the lifetime.
-            let arr: &'scale [u8; 32] = match (*data).try_into() {
-                Ok(arr) => arr,
-                Err(_) => return Err(DecodeError::NotEnoughInput),
-            };
+            let (arr, rest): (&'scale [u8; 32], &'scale [u8]) =
+                data.split_first_chunk().ok_or(DecodeError::NotEnoughInput)?;
             // If we successfully read the bytes, then advance the pointer past them.
-            *data = &data[32..];
+            *data = rest;
             Ok(arr)
         }
 
-- 
2.43.0


From 2fd61e5f1919a6566d11d7357a2ba15032dfd14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 02/12] fix: Tuple::remaining reports the items not yet decoded

---
 scale-decode/src/visitor/types/tuple.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 3faaaec..e11228b 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -58,7 +58,7 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
     }
     /// The number of un-decoded items remaining in the tuple.
     pub fn remaining(&self) -> usize {
-        self.fields.len()
+        self.fields.len() - self.next_field_idx
     }
     /// Decode the next item from the tuple by providing a visitor to handle it.
     pub fn decode_item<V: Visitor<TypeResolver = R>>(
-- 
2.43.0


From 083232449d8b61676e904fbe6fd39ee9caaa53fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 03/12] fix: decode compact encoded tuple fields with a visitor
 as compact

---
 scale-decode/src/visitor/types/tuple.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index e11228b..25abb0d 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -143,11 +143,12 @@ impl<'scale, 'resolver, R: TypeResolver> TupleField<'scale, 'resolver, R> {
         &self,
         visitor: V,
     ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
-        crate::visitor::decode_with_visitor(
+        crate::visitor::decode_with_visitor_maybe_compact(
             &mut &*self.bytes,
             self.type_id.clone(),
             self.types,
             visitor,
+            self.is_compact,
         )
     }
     /// Decode this field into a specific type via [`DecodeAsType`].
-- 
2.43.0


From 8ca9b3e10b1f115fc97e720faff8dc2f2f0d849d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 04/12] fix: Composite::as_tuple converts only the remaining
 fields

---
 scale-decode/src/visitor/types/composite.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index e195c87..a1727c3 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -86,7 +86,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     pub fn as_tuple(&self) -> super::Tuple<'scale, 'resolver, R> {
         super::Tuple::new(
             self.item_bytes,
-            &mut self.fields.iter().cloned(),
+            &mut self.fields[self.next_field_idx..].iter().cloned(),
             self.types,
             self.is_compact,
         )
-- 
2.43.0


From 053c361f11288c3af7406862f236d75b78e676b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:33 +0000
Subject: [PATCH 05/12] fix: return visitor errors from malformed bit sequences

---
 scale-decode/src/visitor/decode.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index e90b98b..880a752 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -349,9 +349,15 @@ impl<'temp, 'scale, 'resolver, V: Visitor> ResolvedTypeVisitor<'resolver>
         let mut bitseq = BitSequence::new(format, self.data);
         let res = self.visitor.visit_bitsequence(&mut bitseq, self.type_id);
 
-        // Move to the bytes after the bit sequence.
-        *self.data = bitseq.bytes_after()?;
-
-        res
+        // Move to the bytes after the bit sequence. Prioritize returning visitor errors over
+        // errors finding those bytes.
+        match (res, bitseq.bytes_after()) {
+            (Err(e), Err(_)) => Err(e),
+            (Ok(_), Err(e)) => Err(e.into()),
+            (res, Ok(bytes_after)) => {
+                *self.data = bytes_after;
+                res
+            }
+        }
     }
 }
-- 
2.43.0


From dfd47d1842714eee14ad8e38a09659b3f6ce9b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:36 +0000
Subject: [PATCH 06/12] fix: skip the rest of a composite or tuple after a
 field failed to decode

---
 scale-decode/src/visitor/types/composite.rs | 18 +++++++++++++++++-
 scale-decode/src/visitor/types/tuple.rs     | 17 ++++++++++++++++-
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/scale-decode/src/visitor/types/composite.rs b/scale-decode/src/visitor/types/composite.rs
index a1727c3..059aa18 100644
--- a/scale-decode/src/visitor/types/composite.rs
+++ b/scale-decode/src/visitor/types/composite.rs
@@ -26,6 +26,8 @@ pub struct Composite<'scale, 'resolver, R: TypeResolver> {
     fields: smallvec::SmallVec<[Field<'resolver, R::TypeId>; 16]>,
     path: smallvec::SmallVec<[&'resolver str; 5]>,
     next_field_idx: usize,
+    // If decoding a field failed, this is its index, so that we can skip over it and the rest.
+    failed_field_idx: Option<usize>,
     types: &'resolver R,
     is_compact: bool,
 }
@@ -42,7 +44,16 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     ) -> Composite<'scale, 'resolver, R> {
         let path = smallvec::SmallVec::from_iter(path);
         let fields = smallvec::SmallVec::from_iter(fields);
-        Composite { path, bytes, item_bytes: bytes, fields, types, next_field_idx: 0, is_compact }
+        Composite {
+            path,
+            bytes,
+            item_bytes: bytes,
+            fields,
+            types,
+            next_field_idx: 0,
+            failed_field_idx: None,
+            is_compact,
+        }
     }
     /// Return the name of the composite type, if one was given.
     pub fn name(&self) -> Option<&'resolver str> {
@@ -55,6 +66,10 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
     /// Skip over all bytes associated with this composite type. After calling this,
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this composite type.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
+        // If a field failed to decode, nothing past it has been decoded either; skip from there.
+        if let Some(idx) = self.failed_field_idx.take() {
+            self.next_field_idx = idx;
+        }
         while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
             res?;
         }
@@ -121,6 +136,7 @@ impl<'scale, 'resolver, R: TypeResolver> Composite<'scale, 'resolver, R> {
             self.next_field_idx += 1;
         } else {
             // Otherwise, skip to end to prevent any future iterations:
+            self.failed_field_idx = Some(self.next_field_idx);
             self.next_field_idx = self.fields.len()
         }
 
diff --git a/scale-decode/src/visitor/types/tuple.rs b/scale-decode/src/visitor/types/tuple.rs
index 25abb0d..4b63e71 100644
--- a/scale-decode/src/visitor/types/tuple.rs
+++ b/scale-decode/src/visitor/types/tuple.rs
@@ -25,6 +25,8 @@ pub struct Tuple<'scale, 'resolver, R: TypeResolver> {
     item_bytes: &'scale [u8],
     fields: smallvec::SmallVec<[Field<'resolver, R::TypeId>; 16]>,
     next_field_idx: usize,
+    // If decoding a field failed, this is its index, so that we can skip over it and the rest.
+    failed_field_idx: Option<usize>,
     types: &'resolver R,
     is_compact: bool,
 }
@@ -37,11 +39,23 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
         is_compact: bool,
     ) -> Tuple<'scale, 'resolver, R> {
         let fields = smallvec::SmallVec::from_iter(fields);
-        Tuple { bytes, item_bytes: bytes, fields, types, next_field_idx: 0, is_compact }
+        Tuple {
+            bytes,
+            item_bytes: bytes,
+            fields,
+            types,
+            next_field_idx: 0,
+            failed_field_idx: None,
+            is_compact,
+        }
     }
     /// Skip over all bytes associated with this tuple. After calling this,
     /// [`Self::bytes_from_undecoded()`] will represent the bytes after this tuple.
     pub fn skip_decoding(&mut self) -> Result<(), DecodeError> {
+        // If a field failed to decode, nothing past it has been decoded either; skip from there.
+        if let Some(idx) = self.failed_field_idx.take() {
+            self.next_field_idx = idx;
+        }
         while let Some(res) = self.decode_item(IgnoreVisitor::<R>::new()) {
             res?;
         }
@@ -82,6 +96,7 @@ impl<'scale, 'resolver, R: TypeResolver> Tuple<'scale, 'resolver, R> {
             self.next_field_idx += 1;
         } else {
             // Otherwise, skip to end to prevent any future iterations:
+            self.failed_field_idx = Some(self.next_field_idx);
             self.next_field_idx = self.fields.len()
         }
 
-- 
2.43.0


From 2d0f93b8e73dbf013543d43541cec1f44e50b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 07/12] fix: return visitor errors rather than skipping errors
 from decode_as_fields

---
 scale-decode-derive/src/lib.rs | 11 ++++++++---
 scale-decode/src/impls/mod.rs  | 11 ++++++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 4d44700..6a82174 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -326,10 +326,15 @@ fn generate_struct_impl(
                     let val = <#path_to_type #ty_generics>::into_visitor().visit_composite(&mut composite, Default::default());
 
                     // Consume any remaining bytes and update input:
-                    composite.skip_decoding()?;
-                    *input = composite.bytes_from_undecoded();
+                    let skip_res = composite.skip_decoding();
+                    if skip_res.is_ok() {
+                        *input = composite.bytes_from_undecoded();
+                    }
 
-                    val.map_err(From::from)
+                    // Prioritize returning visitor errors over skip_decoding errors.
+                    let val = val?;
+                    skip_res?;
+                    Ok(val)
                 }
             }
         };
diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 16ec900..92871c0 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -645,10 +645,15 @@ macro_rules! impl_decode_tuple {
                 let val = <($($t,)*)>::into_visitor().visit_composite(&mut composite, Default::default());
 
                 // Skip over bytes that we decoded:
-                composite.skip_decoding()?;
-                *input = composite.bytes_from_undecoded();
+                let skip_res = composite.skip_decoding();
+                if skip_res.is_ok() {
+                    *input = composite.bytes_from_undecoded();
+                }
 
-                val
+                // Prioritize returning visitor errors over skip_decoding errors.
+                let val = val?;
+                skip_res?;
+                Ok(val)
             }
         }
     }
-- 
2.43.0


From d69030feb705324d9ad15e492df316a87d8f4a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 08/12] fix: list error locations from the outermost to the
 innermost

---
 scale-decode/src/error/context.rs | 5 +++++
 scale-decode/src/error/mod.rs     | 8 ++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/scale-decode/src/error/context.rs b/scale-decode/src/error/context.rs
index 5dbb440..f19e7e6 100644
--- a/scale-decode/src/error/context.rs
+++ b/scale-decode/src/error/context.rs
@@ -35,6 +35,11 @@ impl Context {
     pub fn push(&mut self, loc: Location) {
         self.path.push(loc);
     }
+    /// Put the given location in front of the others. Errors gain context on their way out from
+    /// the innermost value, so this keeps the outermost location first.
+    pub(super) fn push_outer(&mut self, loc: Location) {
+        self.path.insert(0, loc);
+    }
     /// Return the current path.
     pub fn path(&self) -> Path<'_> {
         Path(Cow::Borrowed(&self.path))
diff --git a/scale-decode/src/error/mod.rs b/scale-decode/src/error/mod.rs
index df0ba2e..5ad711a 100644
--- a/scale-decode/src/error/mod.rs
+++ b/scale-decode/src/error/mod.rs
@@ -66,22 +66,22 @@ impl Error {
     }
     /// Give some context to the error.
     pub fn at(mut self, loc: Location) -> Self {
-        self.context.push(loc);
+        self.context.push_outer(loc);
         Error { context: self.context, kind: self.kind }
     }
     /// Note which sequence index the error occurred in.
     pub fn at_idx(mut self, idx: usize) -> Self {
-        self.context.push(Location::idx(idx));
+        self.context.push_outer(Location::idx(idx));
         Error { context: self.context, kind: self.kind }
     }
     /// Note which field the error occurred in.
     pub fn at_field(mut self, field: impl Into<Cow<'static, str>>) -> Self {
-        self.context.push(Location::field(field));
+        self.context.push_outer(Location::field(field));
         Error { context: self.context, kind: self.kind }
     }
     /// Note which variant the error occurred in.
     pub fn at_variant(mut self, variant: impl Into<Cow<'static, str>>) -> Self {
-        self.context.push(Location::variant(variant));
+        self.context.push_outer(Location::variant(variant));
         Error { context: self.context, kind: self.kind }
     }
 }
-- 
2.43.0


From c15acb8b21854b4dfa7548f2ea5c0cce9e3b9e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:11 +0000
Subject: [PATCH 09/12] fix: match fields and variants with raw identifiers by
 their name

---
 scale-decode-derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 6a82174..1b5f827 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -23,7 +23,7 @@ use alloc::string::ToString;
 use darling::FromAttributes;
 use proc_macro2::{Span, TokenStream as TokenStream2};
 use quote::quote;
-use syn::{parse_macro_input, punctuated::Punctuated, DeriveInput};
+use syn::{ext::IdentExt, parse_macro_input, punctuated::Punctuated, DeriveInput};
 
 const ATTR_NAME: &str = "decode_as_type";
 
@@ -63,7 +63,7 @@ fn generate_enum_impl(
 ) -> TokenStream2 {
     let path_to_scale_decode = &attrs.crate_path;
     let path_to_type: syn::Path = input.ident.clone().into();
-    let variant_names = details.variants.iter().map(|v| v.ident.to_string());
+    let variant_names = details.variants.iter().map(|v| v.ident.unraw().to_string());
 
     let generic_types = handle_generics(&attrs, input.generics.clone());
     let ty_generics = generic_types.ty_generics();
@@ -78,7 +78,7 @@ fn generate_enum_impl(
     // that we're trying to generate output for.
     let variant_ifs = details.variants.iter().map(|variant| {
         let variant_ident = &variant.ident;
-        let variant_name = variant_ident.to_string();
+        let variant_name = variant_ident.unraw().to_string();
 
         let visit_one_variant_body = match &variant.fields {
             syn::Fields::Named(fields) => {
@@ -349,7 +349,7 @@ fn named_field_keyvals<'f>(
     let field_keyval_impls = fields.named.iter().map(move |f| {
         let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
         let field_ident = f.ident.as_ref().expect("named field has ident");
-        let field_name = field_ident.to_string();
+        let field_name = field_ident.unraw().to_string();
         let skip_field = field_attrs.skip;
 
         // If a field is skipped, we expect it to have a Default impl to use to populate it instead.
-- 
2.43.0


From 6848a3e42896e12e439c84dd4dbb44552ab9ba88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 10/12] fix: skip fields that have other codec attributes too

---
 scale-decode-derive/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/scale-decode-derive/src/lib.rs b/scale-decode-derive/src/lib.rs
index 1b5f827..4381f34 100644
--- a/scale-decode-derive/src/lib.rs
+++ b/scale-decode-derive/src/lib.rs
@@ -347,7 +347,7 @@ fn named_field_keyvals<'f>(
     fields: &'f syn::FieldsNamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f, impl Iterator<Item = TokenStream2> + 'f) {
     let field_keyval_impls = fields.named.iter().map(move |f| {
-        let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
+        let field_attrs = FieldAttrs::parse(&f.attrs);
         let field_ident = f.ident.as_ref().expect("named field has ident");
         let field_name = field_ident.unraw().to_string();
         let skip_field = field_attrs.skip;
@@ -394,7 +394,7 @@ fn unnamed_field_vals<'f>(
     fields: &'f syn::FieldsUnnamed,
 ) -> (usize, impl Iterator<Item = TokenStream2> + 'f) {
     let field_val_impls = fields.unnamed.iter().enumerate().map(|(idx, f)| {
-        let field_attrs = FieldAttrs::from_attributes(&f.attrs).unwrap_or_default();
+        let field_attrs = FieldAttrs::parse(&f.attrs);
         let skip_field = field_attrs.skip;
 
         // If a field is skipped, we expect it to have a Default impl to use to populate it instead.
@@ -566,8 +566,19 @@ impl TopLevelAttrs {
 
 /// Parse the attributes attached to some field
 #[derive(Debug, FromAttributes, Default)]
-#[darling(attributes(decode_as_type, codec))]
+#[darling(attributes(decode_as_type, codec), allow_unknown_fields)]
 struct FieldAttrs {
     #[darling(default)]
     skip: bool,
 }
+
+impl FieldAttrs {
+    // Look at each attribute by itself so that others next to it (for instance `#[codec(compact)]`,
+    // or another `skip`) don't prevent us from noticing the ones that we care about.
+    fn parse(attrs: &[syn::Attribute]) -> Self {
+        let skip = attrs.iter().any(|attr| {
+            FieldAttrs::from_attributes(core::slice::from_ref(attr)).unwrap_or_default().skip
+        });
+        FieldAttrs { skip }
+    }
+}
-- 
2.43.0


From b19f1b726df4ad58ed35619d73c08c3c82f9ffdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:46 +0000
Subject: [PATCH 11/12] fix: reject durations with excess nanoseconds instead
 of panicking on overflow

---
 scale-decode/src/impls/mod.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 92871c0..6f49891 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -211,7 +211,7 @@ macro_rules! impl_into_visitor_like {
                 // Use the source visitor to decode into some type:
                 let inner_res = decode_with_visitor(input, type_id, types, <$source>::into_visitor());
                 // map this type into our desired output and return it:
-                let res = inner_res.map($mapper);
+                let res = inner_res.and_then($mapper);
                 DecodeAsTypeResult::Decoded(res)
             }
         }
@@ -219,13 +219,20 @@ macro_rules! impl_into_visitor_like {
     }
 }
 
-impl_into_visitor_like!(Compact<T> as T: |res| Compact(res));
-impl_into_visitor_like!(Arc<T> as T: |res| Arc::new(res));
-impl_into_visitor_like!(Rc<T> as T: |res| Rc::new(res));
-impl_into_visitor_like!(Box<T> as T: |res| Box::new(res));
-impl_into_visitor_like!(Duration as (u64, u32): |res: (u64,u32)| Duration::from_secs(res.0) + Duration::from_nanos(res.1 as u64));
-impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| res.0..res.1);
-impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| res.0..=res.1);
+impl_into_visitor_like!(Compact<T> as T: |res| Ok(Compact(res)));
+impl_into_visitor_like!(Arc<T> as T: |res| Ok(Arc::new(res)));
+impl_into_visitor_like!(Rc<T> as T: |res| Ok(Rc::new(res)));
+impl_into_visitor_like!(Box<T> as T: |res| Ok(Box::new(res)));
+impl_into_visitor_like!(Duration as (u64, u32): |res: (u64,u32)| {
+    // As `Duration` decodes statically: nanoseconds never make up whole seconds. This also
+    // means that constructing the duration cannot overflow (which would panic).
+    if res.1 >= 1_000_000_000 {
+        return Err(Error::new(ErrorKind::NumberOutOfRange { value: res.1.to_string() }));
+    }
+    Ok(Duration::new(res.0, res.1))
+});
+impl_into_visitor_like!(Range<T> as (T, T): |res: (T,T)| Ok(res.0..res.1));
+impl_into_visitor_like!(RangeInclusive<T> as (T, T): |res: (T,T)| Ok(res.0..=res.1));
 
 // A custom implementation for `Cow` because it's rather tricky; the visitor we want is whatever the
 // `ToOwned` value for the Cow is, and Cow's have specific constraints, too.
-- 
2.43.0


From 13ae8a5b5736661c2e963ea3538ae074b6c929f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:10 +0000
Subject: [PATCH 12/12] fix: keep track of compact encoding in visitors which
 hand over to another

---
 scale-decode/src/impls/mod.rs             | 52 ++++++++++++++++++++---
 scale-decode/src/impls/primitive_types.rs | 20 ++++++---
 scale-decode/src/visitor/decode.rs        |  7 ++-
 scale-decode/src/visitor/mod.rs           | 27 +++++++++++-
 4 files changed, 93 insertions(+), 13 deletions(-)

diff --git a/scale-decode/src/impls/mod.rs b/scale-decode/src/impls/mod.rs
index 6f49891..3e87fff 100644
--- a/scale-decode/src/impls/mod.rs
+++ b/scale-decode/src/impls/mod.rs
@@ -19,7 +19,8 @@ mod primitive_types;
 use crate::{
     error::{Error, ErrorKind},
     visitor::{
-        self, decode_with_visitor, types::*, DecodeAsTypeResult, DecodeItemIterator, Visitor,
+        self, decode_with_visitor_maybe_compact, types::*, DecodeAsTypeResult, DecodeItemIterator,
+        Visitor,
     },
     DecodeAsFields, FieldIter, IntoVisitor,
 };
@@ -207,9 +208,19 @@ macro_rules! impl_into_visitor_like {
                 input: &mut &'scale [u8],
                 type_id: <Self::TypeResolver as TypeResolver>::TypeId,
                 types: &'resolver Self::TypeResolver,
+            ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
             ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
                 // Use the source visitor to decode into some type:
-                let inner_res = decode_with_visitor(input, type_id, types, <$source>::into_visitor());
+                let inner_res = decode_with_visitor_maybe_compact(input, type_id, types, <$source>::into_visitor(), is_compact);
                 // map this type into our desired output and return it:
                 let res = inner_res.and_then($mapper);
                 DecodeAsTypeResult::Decoded(res)
@@ -251,10 +262,25 @@ where
         input: &mut &'scale [u8],
         type_id: <Self::TypeResolver as TypeResolver>::TypeId,
         types: &'resolver Self::TypeResolver,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
         // Use the ToOwned visitor to decode into some type:
-        let inner_res =
-            decode_with_visitor(input, type_id, types, <<T as ToOwned>::Owned>::into_visitor());
+        let inner_res = decode_with_visitor_maybe_compact(
+            input,
+            type_id,
+            types,
+            <<T as ToOwned>::Owned>::into_visitor(),
+            is_compact,
+        );
         // map this type into our owned Cow to return:
         let res = inner_res.map(Cow::Owned);
         DecodeAsTypeResult::Decoded(res)
@@ -561,6 +587,16 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             input: &mut &'scale [u8],
             type_id: <Self::TypeResolver as TypeResolver>::TypeId,
             types: &'resolver Self::TypeResolver,
+        ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+            self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+        }
+
+        fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+            self,
+            input: &mut &'scale [u8],
+            type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+            types: &'resolver Self::TypeResolver,
+            is_compact: bool,
         ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
             use scale_type_resolver::{ResolvedTypeVisitor, UnhandledKind};
 
@@ -590,7 +626,13 @@ macro_rules! decode_inner_type_when_one_tuple_entry {
             }
 
             // Else, try to decode as the inner type.
-            let inner_res = decode_with_visitor(input, type_id, types, <$t>::into_visitor());
+            let inner_res = decode_with_visitor_maybe_compact(
+                input,
+                type_id,
+                types,
+                <$t>::into_visitor(),
+                is_compact,
+            );
             let res = inner_res.map(|val| (val,)).map_err(|e| e.into());
             DecodeAsTypeResult::Decoded(res)
         }
diff --git a/scale-decode/src/impls/primitive_types.rs b/scale-decode/src/impls/primitive_types.rs
index ff788f1..3767658 100644
--- a/scale-decode/src/impls/primitive_types.rs
+++ b/scale-decode/src/impls/primitive_types.rs
@@ -16,7 +16,7 @@
 use super::BasicVisitor;
 use crate::{
     error::Error,
-    visitor::{decode_with_visitor, DecodeAsTypeResult, Visitor},
+    visitor::{decode_with_visitor_maybe_compact, DecodeAsTypeResult, Visitor},
     IntoVisitor,
 };
 use primitive_types::{H128, H160, H256, H384, H512, H768};
@@ -34,15 +34,23 @@ macro_rules! impl_visitor {
                 input: &mut &'scale [u8],
                 type_id: <Self::TypeResolver as TypeResolver>::TypeId,
                 types: &'resolver Self::TypeResolver,
-            ) -> crate::visitor::DecodeAsTypeResult<
-                Self,
-                Result<Self::Value<'scale, 'resolver>, Self::Error>,
-            > {
-                let res = decode_with_visitor(
+            ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+                self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+            }
+
+            fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+                self,
+                input: &mut &'scale [u8],
+                type_id: <Self::TypeResolver as TypeResolver>::TypeId,
+                types: &'resolver Self::TypeResolver,
+                is_compact: bool,
+            ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+                let res = decode_with_visitor_maybe_compact(
                     input,
                     type_id,
                     types,
                     BasicVisitor::<[u8; $len / 8], R> { _marker: core::marker::PhantomData },
+                    is_compact,
                 )
                 .map(|res| <$ty>::from(res));
                 DecodeAsTypeResult::Decoded(res)
diff --git a/scale-decode/src/visitor/decode.rs b/scale-decode/src/visitor/decode.rs
index 880a752..9f28bef 100644
--- a/scale-decode/src/visitor/decode.rs
+++ b/scale-decode/src/visitor/decode.rs
@@ -46,7 +46,12 @@ pub fn decode_with_visitor_maybe_compact<'scale, 'resolver, V: Visitor>(
     is_compact: bool,
 ) -> Result<V::Value<'scale, 'resolver>, V::Error> {
     // Provide option to "bail out" and do something custom first.
-    let visitor = match visitor.unchecked_decode_as_type(data, ty_id.clone(), types) {
+    let visitor = match visitor.unchecked_decode_as_type_maybe_compact(
+        data,
+        ty_id.clone(),
+        types,
+        is_compact,
+    ) {
         DecodeAsTypeResult::Decoded(r) => return r,
         DecodeAsTypeResult::Skipped(v) => v,
     };
diff --git a/scale-decode/src/visitor/mod.rs b/scale-decode/src/visitor/mod.rs
index f1bfc19..5f5b3d3 100644
--- a/scale-decode/src/visitor/mod.rs
+++ b/scale-decode/src/visitor/mod.rs
@@ -60,6 +60,20 @@ pub trait Visitor: Sized {
         DecodeAsTypeResult::Skipped(self)
     }
 
+    /// This is what is actually called prior to decoding a type, and is also told whether the value is
+    /// compact encoded. Visitors which hand everything over to some other visitor need to pass this on;
+    /// anything else can just implement [`Visitor::unchecked_decode_as_type()`].
+    #[doc(hidden)]
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        _is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        self.unchecked_decode_as_type(input, type_id, types)
+    }
+
     /// This is called when a visitor function that you've not provided an implementation is called.
     /// You are provided an enum value corresponding to the function call, and can decide what to return
     /// in this case. The default is to return an error to announce the unexpected value.
@@ -420,7 +434,18 @@ where
         type_id: TypeIdFor<Self>,
         types: &'resolver Self::TypeResolver,
     ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
-        let res = decode_with_visitor(input, type_id, types, self.0).map_err(Into::into);
+        self.unchecked_decode_as_type_maybe_compact(input, type_id, types, false)
+    }
+
+    fn unchecked_decode_as_type_maybe_compact<'scale, 'resolver>(
+        self,
+        input: &mut &'scale [u8],
+        type_id: TypeIdFor<Self>,
+        types: &'resolver Self::TypeResolver,
+        is_compact: bool,
+    ) -> DecodeAsTypeResult<Self, Result<Self::Value<'scale, 'resolver>, Self::Error>> {
+        let res = decode_with_visitor_maybe_compact(input, type_id, types, self.0, is_compact)
+            .map_err(Into::into);
         DecodeAsTypeResult::Decoded(res)
     }
 }
-- 
2.43.0

