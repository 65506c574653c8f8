From c2dbb5692e774ec0214352763b26529cb1d26b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 01/18] fix: return an error instead of panicking on a
 half-present union vector

---
 crates/planus/src/table_reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/planus/src/table_reader.rs b/crates/planus/src/table_reader.rs
index 981ca94..b952a3d 100644
--- a/crates/planus/src/table_reader.rs
+++ b/crates/planus/src/table_reader.rs
@@ -163,7 +163,8 @@ impl<'buf> Table<'buf> {
             let values_offset = u16::from_le_bytes(offset[2..].try_into().unwrap()) as usize;
             match (tags_offset, values_offset) {
                 (0, 0) => Ok(None),
-                (0, _) | (_, 0) => todo!(),
+                // One half of the union vector is missing
+                (0, _) | (_, 0) => Err(make_error(ErrorKind::MissingRequired)),
                 (tags_offset, values_offset) => Ok(Some(
                     T::from_buffer(self.object, tags_offset, values_offset).map_err(make_error)?,
                 )),
-- 
2.43.0


From 3a7430fb36429f99966af2092be41c9c4cfe1876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:12 +0000
Subject: [PATCH 02/18] fix: debug assertion in UnionVector indexing required
 four bytes per tag

---
 crates/planus/src/union_vectors/union_vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus/src/union_vectors/union_vector.rs b/crates/planus/src/union_vectors/union_vector.rs
index 82749cd..e677306 100644
--- a/crates/planus/src/union_vectors/union_vector.rs
+++ b/crates/planus/src/union_vectors/union_vector.rs
@@ -420,7 +420,7 @@ impl<'buf, T: VectorReadUnion<'buf>> UnionVectorIndex<'buf, T> for usize {
     #[inline]
     unsafe fn get_unchecked(self, vector: UnionVector<'buf, T>) -> Self::Output {
         debug_assert!(self < vector.len);
-        debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.tags.len());
+        debug_assert!(vector.len <= vector.tags.len());
         debug_assert!(vector.len.checked_mul(4).unwrap() <= vector.values.len());
         let tag = *vector.tags.buffer.get_unchecked(self);
         <T as VectorReadUnion>::from_buffer(vector.values, tag, 4 * self)
-- 
2.43.0


From 8d7cda8c20eca3043b8f8d625728d96f4596c036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:29 +0000
Subject: [PATCH 03/18] fix: align the elements, not the length prefix, of
 vectors written from arrays

---
 crates/planus/src/impls/array.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/crates/planus/src/impls/array.rs b/crates/planus/src/impls/array.rs
index 49d3024..550f649 100644
--- a/crates/planus/src/impls/array.rs
+++ b/crates/planus/src/impls/array.rs
@@ -1,6 +1,6 @@
 use core::mem::MaybeUninit;
 
-use crate::{builder::Builder, traits::*, Cursor, Offset, UnionVectorOffset};
+use crate::{builder::Builder, traits::*, Offset, UnionVectorOffset};
 
 impl<T, P, const N: usize> WriteAsOffset<[P]> for [T; N]
 where
@@ -16,22 +16,27 @@ where
         //       https://github.com/rust-lang/rust/issues/80908
         let tmp =
             unsafe { (&tmp as *const [MaybeUninit<T::Value>; N] as *const [T::Value; N]).read() };
+        // The elements are written separately from the length prefix, since it is the elements that need to be aligned
+        // SAFETY: The inner closure always initializes the entire buffer, because it calls `write_values` with `N` values each of length `T::STRIDE`.
         unsafe {
             builder.write_with(
-                4 + T::STRIDE.checked_mul(self.len()).unwrap(),
-                P::ALIGNMENT_MASK.max(3),
+                T::STRIDE.checked_mul(self.len()).unwrap(),
+                P::ALIGNMENT_MASK.max(u32::ALIGNMENT_MASK),
                 |buffer_position, bytes| {
                     let bytes = bytes.as_mut_ptr();
 
-                    (self.len() as u32).write(
-                        Cursor::new(&mut *(bytes as *mut [MaybeUninit<u8>; 4])),
-                        buffer_position,
-                    );
-
-                    T::write_values(&tmp, bytes.add(4), buffer_position - 4);
+                    T::write_values(&tmp, bytes, buffer_position);
                 },
             )
         };
+
+        // SAFETY: The inner closure always initializes the entire buffer, because it calls `copy_from_slice` with an array of len 4
+        unsafe {
+            builder.write_with(4, 0, |_buffer_position, bytes| {
+                let len = (self.len() as u32).to_le_bytes().map(MaybeUninit::new);
+                bytes.copy_from_slice(&len);
+            });
+        }
         builder.current_offset()
     }
 }
-- 
2.43.0


From d61f2a6bf4309d7fed6bee3a13a90f8820aa4c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:40 +0000
Subject: [PATCH 04/18] fix: write the root offset in front of the file
 identifier

---
 crates/planus/src/builder.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/planus/src/builder.rs b/crates/planus/src/builder.rs
index 4c111d7..59afc24 100644
--- a/crates/planus/src/builder.rs
+++ b/crates/planus/src/builder.rs
@@ -263,8 +263,10 @@ impl Builder {
                 8,
                 <Offset<T> as Primitive>::ALIGNMENT_MASK.max(self.alignment_mask),
             ) as u32;
-            self.write(&(offset - 4 - root.offset).to_le_bytes());
+            // The buffer is written from the back: the root offset goes first in the
+            // finished buffer and is followed by the file identifier
             self.write(&file_identifier);
+            self.write(&(offset - root.offset).to_le_bytes());
         } else {
             let offset = self.prepare_write(
                 4,
-- 
2.43.0


From 8ab948e59892bcfa04c8cb87d27475614f974df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:23 +0000
Subject: [PATCH 05/18] fix: keep the sign of negative floating point defaults

---
 .../src/intermediate_language/translation.rs         | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 48d0049..2dd0472 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -364,7 +364,7 @@ impl<'a> Translator<'a> {
     fn translate_float(
         &self,
         _span: Span,
-        _is_negative: bool,
+        is_negative: bool,
         v: &str,
         type_: &ast::FloatType,
     ) -> Option<FloatLiteral> {
@@ -373,8 +373,14 @@ impl<'a> Translator<'a> {
         // TODO error messages
         // TODO: hex parsing and other formats
         Some(match type_ {
-            ast::FloatType::F32 => F32(v.parse().unwrap()),
-            ast::FloatType::F64 => F64(v.parse().unwrap()),
+            ast::FloatType::F32 => {
+                let value: f32 = v.parse().unwrap();
+                F32(if is_negative { -value } else { value })
+            }
+            ast::FloatType::F64 => {
+                let value: f64 = v.parse().unwrap();
+                F64(if is_negative { -value } else { value })
+            }
         })
     }
 
-- 
2.43.0


From 9d2a236019aacd04146591af86c97995bb0b3c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 06/18] fix: a forced alignment of a table field must not
 change the order of fields

Fields are packed by the alignment of their types without padding, so moving
a small field with a forced alignment to the front misaligned every field
behind it.
---
 .../src/intermediate_language/translation.rs               | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 2dd0472..e43f7cc 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1455,7 +1455,7 @@ impl<'a> Translator<'a> {
             if let DeclarationKind::Table(decl_kind) = &mut decl.kind {
                 for field in decl_kind.fields.values_mut() {
                     let mut tag_kind = TableFieldTagKind::None;
-                    let (value_size, mut alignment) = match &field.type_.kind {
+                    let (value_size, alignment) = match &field.type_.kind {
                         TypeKind::Table(_) | TypeKind::String => (4, 4),
                         TypeKind::Vector(inner) => {
                             if matches!(&inner.kind, TypeKind::Union(_)) {
@@ -1494,8 +1494,11 @@ impl<'a> Translator<'a> {
                     };
                     if let Some((forced_alignment, forced_alignment_span)) = field.forced_alignment
                     {
+                        // Fields are packed by the alignment of their types without any
+                        // padding between them, so forcing a stricter alignment cannot
+                        // be allowed to change their order.
                         if alignment <= forced_alignment {
-                            alignment = forced_alignment;
+                            max_alignment = max_alignment.max(forced_alignment);
                         } else {
                             self.ctx.emit_error(
                                 ErrorKind::MISC_SEMANTIC_ERROR,
-- 
2.43.0


From f50e6f686e63d6d48da851754bc037e53b192464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:07 +0000
Subject: [PATCH 07/18] fix: give types and modules of one namespace distinct
 names

---
 crates/planus-codegen/src/backend.rs          |  2 +-
 .../planus-codegen/src/backend_translation.rs | 25 ++++++++++++-------
 crates/planus-codegen/src/rust/mod.rs         |  2 +-
 3 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/crates/planus-codegen/src/backend.rs b/crates/planus-codegen/src/backend.rs
index b30dae7..becda27 100644
--- a/crates/planus-codegen/src/backend.rs
+++ b/crates/planus-codegen/src/backend.rs
@@ -21,7 +21,7 @@ pub struct NamespaceNames<'a, 'keywords> {
 
 pub struct DeclarationNames<'a, 'keywords> {
     pub _global_names: &'a mut Names<'keywords>,
-    pub _namespace_names: &'a mut Names<'keywords>,
+    pub namespace_names: &'a mut Names<'keywords>,
     pub declaration_names: &'a mut Names<'keywords>,
 }
 
diff --git a/crates/planus-codegen/src/backend_translation.rs b/crates/planus-codegen/src/backend_translation.rs
index bd36a66..11b4321 100644
--- a/crates/planus-codegen/src/backend_translation.rs
+++ b/crates/planus-codegen/src/backend_translation.rs
@@ -415,15 +415,22 @@ pub fn run_backend<B: ?Sized + Backend>(
     let mut declaration_names = (0..declarations.declarations.len())
         .map(|_| Names::new(&keywords))
         .collect::<Vec<_>>();
+    // The name of a namespace is in scope in its parent, so that is where it has to be unique
+    let mut namespace_scopes = (0..declarations.namespaces.len()).collect::<Vec<_>>();
+    for (parent, namespace) in declarations.namespaces.values().enumerate() {
+        for child in namespace.child_namespaces.values() {
+            namespace_scopes[child.0] = parent;
+        }
+    }
     let translated_namespaces = declarations
         .namespaces
         .iter()
-        .zip(&mut namespace_names)
-        .map(|((namespace_name, namespace), namespace_names)| {
+        .zip(namespace_scopes)
+        .map(|((namespace_name, namespace), scope)| {
             backend.generate_namespace(
                 &mut NamespaceNames {
                     _global_names: global_names,
-                    namespace_names,
+                    namespace_names: &mut namespace_names[scope],
                 },
                 namespace_name,
                 namespace,
@@ -442,7 +449,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_table(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -456,7 +463,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_struct(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -470,7 +477,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_enum(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -484,7 +491,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                     backend.generate_union(
                         &mut DeclarationNames {
                             _global_names: global_names,
-                            _namespace_names: namespace_names,
+                            namespace_names,
                             declaration_names,
                         },
                         &translated_namespaces,
@@ -528,7 +535,7 @@ pub fn run_backend<B: ?Sized + Backend>(
                                 &mut DeclarationTranslationContext {
                                     declaration_names: DeclarationNames {
                                         _global_names: global_names,
-                                        _namespace_names: namespace_names,
+                                        namespace_names,
                                         declaration_names,
                                     },
                                     translated_namespaces: &translated_namespaces,
@@ -557,7 +564,7 @@ pub fn run_backend<B: ?Sized + Backend>(
         let mut translation_context = DeclarationTranslationContext {
             declaration_names: DeclarationNames {
                 _global_names: global_names,
-                _namespace_names: namespace_names,
+                namespace_names,
                 declaration_names,
             },
             translated_namespaces: &translated_namespaces,
diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index bc91782..ae04e7b 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -130,7 +130,7 @@ fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>)
 fn reserve_type_name(path: &str, declaration_names: &mut DeclarationNames<'_, '_>) -> String {
     let name = path.to_upper_camel_case().into();
     declaration_names
-        .declaration_names
+        .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
         .into()
 }
-- 
2.43.0


From 9512a01366db0b752dc607b1087a655029925064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:23 +0000
Subject: [PATCH 08/18] fix: a type named like a builder's type parameter was
 shadowed by it

---
 crates/planus-codegen/src/rust/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index ae04e7b..ecee31c 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -128,7 +128,15 @@ fn reserve_module_name(path: &str, namespace_names: &mut NamespaceNames<'_, '_>)
 }
 
 fn reserve_type_name(path: &str, declaration_names: &mut DeclarationNames<'_, '_>) -> String {
-    let name = path.to_upper_camel_case().into();
+    let mut name = path.to_upper_camel_case();
+    // `T0`, `T1`, ... are the type parameters of the builders and would shadow the type
+    if name
+        .strip_prefix('T')
+        .is_some_and(|i| !i.is_empty() && i.bytes().all(|c| c.is_ascii_digit()))
+    {
+        name.push('_');
+    }
+    let name = name.into();
     declaration_names
         .namespace_names
         .try_reserve_repeat(BINDING_KIND_TYPES, name, '_')
-- 
2.43.0


From 6703fa5c0c1331c54841fe6fd0076cd1d97104a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 09/18] fix: integer literals with digit separators were
 dropped without an error

---
 .../src/intermediate_language/translation.rs             | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index e43f7cc..653f2d3 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -327,9 +327,14 @@ impl<'a> Translator<'a> {
                 b'0'..=b'9' => c - b'0',
                 b'a'..=b'f' if base == 16 => c - b'a' + 0xa,
                 b'A'..=b'F' if base == 16 => c - b'A' + 0xa,
+                // Digit separators
+                b'_' => continue,
                 _ => {
-                    // TODO error message
-                    // Can it even happen?
+                    self.ctx.emit_error(
+                        ErrorKind::NUMERICAL_PARSE_ERROR,
+                        [Label::primary(file_id, span)],
+                        Some("Invalid integer literal"),
+                    );
                     return None;
                 }
             };
-- 
2.43.0


From 791567fd7eaae4c99d401621fd77071747a4aa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 10/18] fix: report floating point literals that cannot be
 represented instead of panicking

---
 .../src/intermediate_language/translation.rs  | 45 ++++++++++++++-----
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 653f2d3..ac70f43 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -368,24 +368,45 @@ impl<'a> Translator<'a> {
 
     fn translate_float(
         &self,
-        _span: Span,
+        file_id: FileId,
+        span: Span,
         is_negative: bool,
         v: &str,
         type_: &ast::FloatType,
     ) -> Option<FloatLiteral> {
         use FloatLiteral::*;
 
-        // TODO error messages
         // TODO: hex parsing and other formats
-        Some(match type_ {
-            ast::FloatType::F32 => {
-                let value: f32 = v.parse().unwrap();
-                F32(if is_negative { -value } else { value })
-            }
-            ast::FloatType::F64 => {
-                let value: f64 = v.parse().unwrap();
-                F64(if is_negative { -value } else { value })
-            }
+        let digits = v.replace('_', "");
+        let value = match type_ {
+            ast::FloatType::F32 => digits.parse().map(F32),
+            ast::FloatType::F64 => digits.parse().map(F64),
+        };
+        let Ok(value) = value else {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_PARSE_ERROR,
+                [Label::primary(file_id, span)],
+                Some("Unsupported format for a floating point literal"),
+            );
+            return None;
+        };
+
+        let overflowed = match value {
+            F32(value) => value.is_infinite(),
+            F64(value) => value.is_infinite(),
+        } && v.starts_with(|c: char| c.is_ascii_digit() || c == '.');
+        if overflowed {
+            self.ctx.emit_error(
+                ErrorKind::NUMERICAL_RANGE_ERROR,
+                [Label::primary(file_id, span)],
+                Some("Floating point literal is out of range for its type"),
+            );
+            return None;
+        }
+
+        Some(match value {
+            F32(value) => F32(if is_negative { -value } else { value }),
+            F64(value) => F64(if is_negative { -value } else { value }),
         })
     }
 
@@ -450,7 +471,7 @@ impl<'a> Translator<'a> {
                 | LiteralKind::Integer { is_negative, value },
                 SimpleType(Float(type_)),
             ) => self
-                .translate_float(literal.span, *is_negative, value, type_)
+                .translate_float(current_file_id, literal.span, *is_negative, value, type_)
                 .map(Literal::Float),
             (LiteralKind::String(s), String) => Some(Literal::String(s.clone())),
             (LiteralKind::List(literals), Vector(type_)) => {
-- 
2.43.0


From 9961cb9cc4c4a3060f26bb87e8375777485b96c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:30 +0000
Subject: [PATCH 11/18] fix: report enum values that would wrap around instead
 of wrapping them

---
 .../src/intermediate_language/translation.rs  | 23 ++++++++++++-------
 crates/planus-types/src/intermediate.rs       | 23 ++++++++++---------
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index ac70f43..bffd749 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1207,23 +1207,30 @@ impl<'a> Translator<'a> {
         }
 
         let mut variants: IndexMap<IntegerLiteral, EnumVariant> = IndexMap::new();
-        let mut next_value = IntegerLiteral::default_value_from_type(&decl.type_);
+        let mut next_value = Some(IntegerLiteral::default_value_from_type(&decl.type_));
         for (ident, variant) in decl.variants.iter() {
-            let mut value = next_value;
             let name = self.ctx.resolve_identifier(*ident);
-            if let Some(assignment) = &variant.value {
-                if let Some(v) = self.translate_integer(
+            let value = if let Some(assignment) = &variant.value {
+                let Some(value) = self.translate_integer(
                     current_file_id,
                     assignment.span,
                     assignment.is_negative,
                     &assignment.value,
                     &decl.type_,
-                ) {
-                    value = v;
-                } else {
+                ) else {
                     continue;
                 };
-            }
+                value
+            } else if let Some(value) = next_value {
+                value
+            } else {
+                self.ctx.emit_error(
+                    ErrorKind::NUMERICAL_RANGE_ERROR,
+                    [Label::primary(current_file_id, variant.span)],
+                    Some("The value implied for this variant is out of range for the type of the enum"),
+                );
+                continue;
+            };
             match variants.entry(value) {
                 Entry::Occupied(entry) => {
                     self.ctx.emit_error(
diff --git a/crates/planus-types/src/intermediate.rs b/crates/planus-types/src/intermediate.rs
index c59eb5b..cedadcb 100644
--- a/crates/planus-types/src/intermediate.rs
+++ b/crates/planus-types/src/intermediate.rs
@@ -611,18 +611,19 @@ impl IntegerLiteral {
         }
     }
 
+    /// The following integer, if the type has one
     #[must_use]
-    pub fn next(&self) -> Self {
-        match self {
-            Self::U8(n) => Self::U8(n.wrapping_add(1)),
-            Self::I8(n) => Self::I8(n.wrapping_add(1)),
-            Self::U16(n) => Self::U16(n.wrapping_add(1)),
-            Self::I16(n) => Self::I16(n.wrapping_add(1)),
-            Self::U32(n) => Self::U32(n.wrapping_add(1)),
-            Self::I32(n) => Self::I32(n.wrapping_add(1)),
-            Self::U64(n) => Self::U64(n.wrapping_add(1)),
-            Self::I64(n) => Self::I64(n.wrapping_add(1)),
-        }
+    pub fn next(&self) -> Option<Self> {
+        Some(match self {
+            Self::U8(n) => Self::U8(n.checked_add(1)?),
+            Self::I8(n) => Self::I8(n.checked_add(1)?),
+            Self::U16(n) => Self::U16(n.checked_add(1)?),
+            Self::I16(n) => Self::I16(n.checked_add(1)?),
+            Self::U32(n) => Self::U32(n.checked_add(1)?),
+            Self::I32(n) => Self::I32(n.checked_add(1)?),
+            Self::U64(n) => Self::U64(n.checked_add(1)?),
+            Self::I64(n) => Self::I64(n.checked_add(1)?),
+        })
     }
 }
 
-- 
2.43.0


From 5c2ac17feddbc66a0c579fdb49adaf1717b4522b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:31 +0000
Subject: [PATCH 12/18] fix: reject table fields whose id does not fit into a
 vtable

---
 .../src/intermediate_language/translation.rs  | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index bffd749..289652f 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -43,6 +43,9 @@ enum TypeDescription {
 //  3) do topological sort of all structs to get sizes
 //  4) use this information to update all sizes
 
+/// The size in bytes of a vtable is stored in 16 bits
+const MAX_VTABLE_SLOTS: u32 = (u16::MAX as u32 - 4) / 2;
+
 fn default_docstring_for_namespace(path: &AbsolutePath) -> String {
     if path == &AbsolutePath::ROOT_PATH {
         "The root namespace".to_string()
@@ -973,10 +976,20 @@ impl<'a> Translator<'a> {
             }
         }
 
-        if type_.kind.is_type_with_tag() {
-            *next_vtable_index = vtable_index + 2;
-        } else {
-            *next_vtable_index = vtable_index + 1;
+        let slots = if type_.kind.is_type_with_tag() { 2 } else { 1 };
+        match vtable_index.checked_add(slots) {
+            Some(index) if index <= MAX_VTABLE_SLOTS => *next_vtable_index = index,
+            _ => {
+                self.ctx.emit_error(
+                    ErrorKind::NUMERICAL_RANGE_ERROR,
+                    [Label::primary(current_file_id, field.span)],
+                    Some(&format!(
+                        "Tables cannot have more than {MAX_VTABLE_SLOTS} ids"
+                    )),
+                );
+                *has_id_error = true;
+                return None;
+            }
         }
 
         *max_vtable_size = (*max_vtable_size).max(2 * *next_vtable_index + 4);
-- 
2.43.0


From e202cf0a4de6802af7449189e6b849a8e31e453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 13/18] fix: report structs whose size overflows instead of
 computing a wrong layout

---
 .../src/intermediate_language/translation.rs  | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 289652f..f0712a4 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1402,11 +1402,25 @@ impl<'a> Translator<'a> {
             }};
         }
 
-        fn round_up(value: u32, alignment: u32) -> u32 {
-            value.div_ceil(alignment) * alignment
+        macro_rules! check_size {
+            ($size:expr) => {
+                match $size {
+                    Some(size) => size,
+                    None => {
+                        let (ast_decl, _) = get_ast_decl!();
+                        self.ctx.emit_error(
+                            ErrorKind::NUMERICAL_RANGE_ERROR,
+                            [Label::primary(ast_decl.file_id, ast_decl.definition_span)],
+                            Some("The size of the struct does not fit into 32 bits"),
+                        );
+                        parents.pop();
+                        return None;
+                    }
+                }
+            };
         }
 
-        let mut offset = 0;
+        let mut offset = 0u32;
         let mut max_alignment = 1;
         let mut max_alignment_span = None;
         for field_id in 0..get_struct_decl!().fields.len() {
@@ -1435,7 +1449,7 @@ impl<'a> Translator<'a> {
             };
 
             let (_ast_decl, ast_kind) = get_ast_decl!();
-            offset = round_up(offset, cur_alignment);
+            offset = check_size!(offset.checked_next_multiple_of(cur_alignment));
             let decl = get_struct_decl!();
             decl.fields[field_id].offset = offset;
             decl.fields[field_id].size = cur_size;
@@ -1443,7 +1457,7 @@ impl<'a> Translator<'a> {
                 decl.fields[field_id - 1].padding_after_field =
                     offset - decl.fields[field_id - 1].offset - decl.fields[field_id - 1].size;
             }
-            offset += cur_size;
+            offset = check_size!(offset.checked_add(cur_size));
             if max_alignment_span.is_none() || max_alignment < cur_alignment {
                 max_alignment_span = Some(ast_kind.fields[field_id].type_.span);
                 max_alignment = cur_alignment;
@@ -1476,7 +1490,7 @@ impl<'a> Translator<'a> {
             }
         }
 
-        offset = round_up(offset, max_alignment);
+        offset = check_size!(offset.checked_next_multiple_of(max_alignment));
         let decl = get_struct_decl!();
         if let Some((_, last_field)) = decl.fields.last_mut() {
             last_field.padding_after_field = offset - last_field.offset - last_field.size;
-- 
2.43.0


From c12ac99cd379f2173657287df0f1b8a1bb88d08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:07 +0000
Subject: [PATCH 14/18] fix: reject tables whose fields do not fit into an
 object

---
 .../src/intermediate_language/translation.rs              | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index f0712a4..71733c1 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1584,6 +1584,14 @@ impl<'a> Translator<'a> {
                     field.object_alignment = alignment;
                     field.object_alignment_mask = alignment - 1;
                 }
+                // The offsets of the fields are stored in 16 bits
+                if max_size > u16::MAX as u32 {
+                    self.ctx.emit_error(
+                        ErrorKind::NUMERICAL_RANGE_ERROR,
+                        [Label::primary(decl.file_id, decl.definition_span)],
+                        Some("The fields of the table do not fit into 65535 bytes"),
+                    );
+                }
                 decl_kind.max_size = max_size;
                 decl_kind.max_alignment = max_alignment;
                 let mut indices = (0..decl_kind.fields.len()).collect::<Vec<_>>();
-- 
2.43.0


From fcd7d99164dfadcff30aab6a46f041405a662ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 15/18] fix: a declaration defined twice shifted the
 descriptions of the following ones

---
 .../src/intermediate_language/translation.rs                  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 71733c1..3e2cc5c 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -91,6 +91,7 @@ impl<'a> Translator<'a> {
             .extend(schema.docstrings.locations.iter().cloned());
         namespace.docstrings.default_docstring = default_docstring_for_namespace(&namespace_path);
 
+        let mut new_declarations = Vec::new();
         for decl in schema.type_declarations.values() {
             let name = self.ctx.resolve_identifier(decl.identifier.value);
             match self
@@ -115,10 +116,11 @@ impl<'a> Translator<'a> {
                         .declaration_ids
                         .insert(name, DeclarationIndex(entry.index()));
                     entry.insert(decl.clone());
+                    new_declarations.push(decl);
                 }
             }
         }
-        for decl in schema.type_declarations.values() {
+        for decl in new_declarations {
             self.descriptions.push(match &decl.kind {
                 ast::TypeDeclarationKind::Table(_) => TypeDescription::Table,
                 ast::TypeDeclarationKind::Struct(_) => TypeDescription::Struct {
-- 
2.43.0


From fda19239644881c1a86c8d788f399df1df3781f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:26 +0000
Subject: [PATCH 16/18] fix: formatting a file that cannot be read panicked
 after reporting it

---
 crates/planus-translation/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/planus-translation/src/lib.rs b/crates/planus-translation/src/lib.rs
index 10c8779..543b870 100644
--- a/crates/planus-translation/src/lib.rs
+++ b/crates/planus-translation/src/lib.rs
@@ -25,7 +25,7 @@ pub use intermediate_language::{translate_files, translate_files_with_options};
 
 pub fn format_file(path: &impl AsRef<Path>, ignore_errors: bool) -> Option<String> {
     let mut ctx = ctx::Ctx::default();
-    let file_id = ctx.add_file(path, []).unwrap();
+    let file_id = ctx.add_file(path, [])?;
     if let Some(parsed) = ctx.parse_file(file_id) {
         if ctx.has_errors() && !ignore_errors {
             None
-- 
2.43.0


From 6bffe6a1f9a7e648c4643693596d602449fc5c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 17/18] fix: union variants with the same name from different
 namespaces were dropped

---
 .../src/intermediate_language/translation.rs  | 74 ++++++++++++-------
 1 file changed, 47 insertions(+), 27 deletions(-)

diff --git a/crates/planus-translation/src/intermediate_language/translation.rs b/crates/planus-translation/src/intermediate_language/translation.rs
index 3e2cc5c..ea892c6 100644
--- a/crates/planus-translation/src/intermediate_language/translation.rs
+++ b/crates/planus-translation/src/intermediate_language/translation.rs
@@ -1293,39 +1293,59 @@ impl<'a> Translator<'a> {
             );
         }
 
-        let variants = decl
-            .variants
-            .values()
-            .filter_map(|variant| {
-                let type_ =
-                    self.translate_type(current_namespace, current_file_id, &variant.type_)?;
-                self.check_valid_union_variant_type(
-                    current_file_id,
-                    &type_,
-                    variant.ident.is_some(),
-                );
+        let mut variants: IndexMap<String, UnionVariant> = IndexMap::new();
+        let mut spans = Vec::new();
+        for variant in decl.variants.values() {
+            let Some(type_) =
+                self.translate_type(current_namespace, current_file_id, &variant.type_)
+            else {
+                continue;
+            };
+            self.check_valid_union_variant_type(current_file_id, &type_, variant.ident.is_some());
 
-                let name = if let Some(ident) = variant.ident {
-                    self.ctx.resolve_identifier(ident.value)
-                } else {
-                    // TODO: make sure this is unique
-                    match &variant.type_.kind {
-                        ast::TypeKind::Path(p) => {
-                            self.ctx.resolve_identifier(*p.parts.last().unwrap())
+            let name = if let Some(ident) = variant.ident {
+                self.ctx.resolve_identifier(ident.value)
+            } else {
+                match &variant.type_.kind {
+                    ast::TypeKind::Path(p) => {
+                        let name = self.ctx.resolve_identifier(*p.parts.last().unwrap());
+                        if variants.contains_key(&name) {
+                            // Tables with the same name from different namespaces
+                            self.ctx.absolute_path_from_parts(&p.parts).0.join("_")
+                        } else {
+                            name
                         }
-                        _ => String::default(),
                     }
-                };
+                    // Already reported by check_valid_union_variant_type
+                    _ => format!("variant{}", variants.len()),
+                }
+            };
 
-                Some((
-                    name,
-                    UnionVariant {
+            match variants.entry(name) {
+                Entry::Occupied(entry) => {
+                    self.ctx.emit_error(
+                        ErrorKind::FIELD_DEFINED_TWICE,
+                        [
+                            Label::primary(current_file_id, spans[entry.index()])
+                                .with_message("First variant was here"),
+                            Label::primary(current_file_id, variant.span)
+                                .with_message("Second variant was here"),
+                        ],
+                        Some(&format!(
+                            "Union uses the name {:?} for multiple variants",
+                            entry.key()
+                        )),
+                    );
+                }
+                Entry::Vacant(entry) => {
+                    spans.push(variant.span);
+                    entry.insert(UnionVariant {
                         type_,
                         docstrings: variant.docstrings.clone(),
-                    },
-                ))
-            })
-            .collect();
+                    });
+                }
+            }
+        }
         Union { variants }
     }
 
-- 
2.43.0


From 26a3cd2cd0cdd26b960cbe4435d9060b05208734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 18/18] fix: defaults of infinity and NaN gave code that does
 not compile

---
 crates/planus-codegen/src/rust/mod.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/crates/planus-codegen/src/rust/mod.rs b/crates/planus-codegen/src/rust/mod.rs
index ecee31c..d58a1b8 100644
--- a/crates/planus-codegen/src/rust/mod.rs
+++ b/crates/planus-codegen/src/rust/mod.rs
@@ -10,7 +10,9 @@ use eyre::Context;
 use heck::{ToSnakeCase, ToUpperCamelCase};
 use planus_types::{
     ast::{FloatType, IntegerType},
-    intermediate::{self, AbsolutePath, AssignMode, DeclarationIndex, Literal, TableFieldTagKind},
+    intermediate::{
+        self, AbsolutePath, AssignMode, DeclarationIndex, FloatLiteral, Literal, TableFieldTagKind,
+    },
 };
 
 use super::backend::{
@@ -871,6 +873,7 @@ impl Backend for RustBackend {
                         read_type = vtable_type.clone();
                         owned_type = vtable_type.clone();
                         create_trait = format!("WriteAsDefault<{owned_type}, {owned_type}>");
+                        let lit = float_literal(lit);
                         impl_default_code = format!("{lit}").into();
                         serialize_default = Some(format!("&{lit}").into());
                         deserialize_default = Some(impl_default_code.clone());
@@ -1053,6 +1056,24 @@ fn float_type(type_: &FloatType) -> &'static str {
     }
 }
 
+fn float_literal(lit: &FloatLiteral) -> String {
+    let (type_, value) = match *lit {
+        FloatLiteral::F32(value) => ("f32", f64::from(value)),
+        FloatLiteral::F64(value) => ("f64", value),
+    };
+    // Values without a literal syntax in Rust
+    let constant = if value.is_nan() {
+        "NAN"
+    } else if value == f64::INFINITY {
+        "INFINITY"
+    } else if value == f64::NEG_INFINITY {
+        "NEG_INFINITY"
+    } else {
+        return lit.to_string();
+    };
+    format!("::core::primitive::{type_}::{constant}")
+}
+
 pub fn format_string(s: &str, max_width: Option<u64>) -> eyre::Result<String> {
     // Probe rustfmt up front so a missing binary yields a clear error.
     let version_status = Command::new("rustfmt")
-- 
2.43.0

