From 44b0fff5382b448c54c900e1aa2a96be2bba460e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 01/12] fix: pack unaligned fields of 32 bytes and longer
 without dropping bits

The number of bits to keep of a source byte was cast to u8 before being
clamped, so it wrapped around at 256 bits and masked away field bits.
---
 packed_struct_codegen/src/pack_codegen.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 2762e67..22d02d8 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -193,7 +193,7 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
         let mut unpack = vec![];
 
         for i in 0..packed_field_len {
-            let src_mask = ones_u8(l as u8);                        
+            let src_mask = ones_u8(l.min(8) as u8);                        
             let bit_shift = emit_shift(shift);
             pack.push(quote! {
                 let _a = #i;
-- 
2.43.0


From c5e4a9053dff0a53573658b7b136c9203b5ad286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 02/12] fix: unpack fields correctly whatever their names are

Unpacking bound every value to a local named after the field, or after the
array field and element index. A field named like the argument (src) or like
another array's element (a_0 next to a: [T; N]) was silently or noisily
clobbered.
---
 packed_struct_codegen/src/pack_codegen.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 22d02d8..1fe9bee 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -51,20 +51,29 @@ pub fn derive_pack(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream>
         };
 
 
+        // local variables that can't clash with each other or with the argument, however the fields are named
+        let mut unpacked_locals = 0usize;
+        let mut next_local = || {
+            let local = quote::format_ident!("_unpacked_{}", unpacked_locals);
+            unpacked_locals += 1;
+            local
+        };
+
         for field in &parsed.fields {
             match field {
                 FieldKind::Regular { ref ident, ref field } => {
-                    reg(ident, ident, field)?;
+                    let target = next_local();
+                    reg(ident, &target, field)?;
 
                     unpack_struct_set.push(quote! {
-                        #ident
+                        #ident: #target
                     });
                 },
                 FieldKind::Array { ref ident, ref elements, .. } => {
                     let mut array_unpacked_elements = vec![];
                     for (i, field) in elements.iter().enumerate() {
                         let src: syn::ExprIndex = syn::parse_str(&format!("{}[{}]", tokens_to_string(ident), i))?;
-                        let target: syn::Ident = syn::parse_str(&format!("{}_{}", tokens_to_string(ident), i))?;
+                        let target = next_local();
 
                         reg(&src, &target, field)?;
                         array_unpacked_elements.push(target);
-- 
2.43.0


From 9aa174f76fee4be425948152ad8cb5cd78657559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 03/12] fix: reject arrays whose bits do not divide evenly
 between the elements

The check compared the width with the element size it was just divided into,
so it let through arrays that lose the trailing bits of their range.
---
 packed_struct_codegen/src/pack_parse.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index ff27bfe..fcfb3d0 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -212,7 +212,7 @@ fn parse_field(field: &syn::Field, mp: &FieldMidPositioning, bit_range: &Range<u
             let size = get_expr_int_val(&type_array.len)?;
 
             let element_size_bits = mp.bit_width / size;
-            if (mp.bit_width % element_size_bits) != 0 {
+            if element_size_bits * size != mp.bit_width {
                 return Err(syn::Error::new(type_array.span(), "Element and array size mismatch!"));
             }
 
-- 
2.43.0


From aeb6bf8e55d5dabae10aaa722d87c726d450aa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:10 +0000
Subject: [PATCH 04/12] fix: order the ends of a byte range before converting
 them to bits

A reversed inclusive range such as bytes="1:0" lost its outer bytes, unlike
the same range written as bytes="0:1" or in bits.
---
 packed_struct_codegen/src/pack_parse_attributes.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index f44bc82..5108df1 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -205,6 +205,7 @@ pub fn parse_position_val(v: &str, multiplier: usize) -> Result<BitsPositionPars
             let start = parse_num(s[0])?;
             let end = parse_num(s[1])?;
             if multiplier > 1 {
+                let (start, end) = (start.min(end), start.max(end));
                 return Ok(BitsPositionParsed::range_in_order(start * multiplier, ((end+1) * multiplier)-1));
             } else {
                 return Ok(BitsPositionParsed::range_in_order(start, end));
-- 
2.43.0


From ec21f4b24f9d5c3fd34f5e85555ff7b2eb607a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 05/12] fix: infer an enum's signed primitive type from all of
 its discriminants

Negative discriminants below the range of i8 were given i8, and large positive
ones next to a negative one were not taken into account.
---
 packed_struct_codegen/src/primitive_enum.rs | 24 ++++++++++-----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 830f71f..7d8936e 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -50,22 +50,22 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
     let all_variants_len = all_variants.len();
 
     if prim_type.is_none() {
+        let any_negative = v.iter().any(|d| d.negative);
+
         let min_ty: Vec<String> = v.iter().map(|d| {
             if !d.suffix.is_empty() {
                 d.suffix.clone()
-            } else if d.negative {
-                let n = d.discriminant as i64;
-                if n < <i32>::min_value() as i64 {
-                    "i64".into()
+            } else if any_negative {
+                let n = if d.negative { -(d.discriminant as i128) } else { d.discriminant as i128 };
+                let fits = |min: i64, max: i64| n >= min as i128 && n <= max as i128;
+                if fits(<i8>::min_value() as i64, <i8>::max_value() as i64) {
+                    "i8".into()
+                } else if fits(<i16>::min_value() as i64, <i16>::max_value() as i64) {
+                    "i16".into()
+                } else if fits(<i32>::min_value() as i64, <i32>::max_value() as i64) {
+                    "i32".into()
                 } else {
-                    let n = -n;
-                    if n < <i16>::min_value() as i64 {
-                        "i32".into()
-                    } else if n < <i8>::min_value() as i64 {
-                        "i16".into()
-                    } else {
-                        "i8".into()
-                    }
+                    "i64".into()
                 }
             } else {
                 let n = d.discriminant;
-- 
2.43.0


From a73c38637dc32690c3e276fc62fc2920e3386825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 06/12] fix: import Formatter in the no_std prelude so that the
 alloc-only configuration builds

---
 packed_struct/src/internal_prelude/no_std.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packed_struct/src/internal_prelude/no_std.rs b/packed_struct/src/internal_prelude/no_std.rs
index 1977e06..4b1e831 100644
--- a/packed_struct/src/internal_prelude/no_std.rs
+++ b/packed_struct/src/internal_prelude/no_std.rs
@@ -3,6 +3,7 @@ pub use core::marker::PhantomData;
 pub use core::iter;
 pub use core::cell::RefCell;
 pub use core::fmt;
+pub use core::fmt::Formatter;
 pub use core::fmt::{Debug, Display};
 pub use core::fmt::Write as FmtWrite;
 pub use core::fmt::Error as FmtError;
-- 
2.43.0


From 5085f02452cc5005d719039caa43942b6195a1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 07/12] fix: reject LSB0 fields beyond the structure's size in
 every build profile

---
 packed_struct_codegen/src/pack_parse.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index fcfb3d0..184f21b 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -404,6 +404,10 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
                 },
                 (Some(BitNumbering::Lsb0), BitsPositionParsed::Range(start, end)) => {
                     if let Some(struct_size_bytes) = struct_size_bytes {
+                        if start.max(end) >= struct_size_bytes * 8 {
+                            return Err(syn::Error::new(field.span(), "The field's position exceeds the declared size of the structure."));
+                        }
+
                         BitsPositionParsed::range_in_order( (struct_size_bytes * 8) - 1 - start, (struct_size_bytes * 8) - 1 - end )
                     } else {
                         return Err(syn::Error::new(field.span(), "LSB0 field positioning currently requires explicit struct byte size."));
-- 
2.43.0


From 6350371fe5cf1be9178be7e6afe0b4d44c0f2746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:31 +0000
Subject: [PATCH 08/12] fix: compute byte offsets of fields with integer
 arithmetic

---
 packed_struct_codegen/src/pack_codegen.rs | 4 ++--
 packed_struct_codegen/src/pack_parse.rs   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen.rs b/packed_struct_codegen/src/pack_codegen.rs
index 1fe9bee..b768d9b 100644
--- a/packed_struct_codegen/src/pack_codegen.rs
+++ b/packed_struct_codegen/src/pack_codegen.rs
@@ -180,8 +180,8 @@ fn pack_bits(field: &FieldRegular) -> PackBitsCopy {
             }
         }
     } else {
-        let packed_field_len = (field.bit_width as f32 / 8.0).ceil() as usize; 
-        let start_byte = (field.bit_range_rust.start as f32 / 8.0).floor() as usize;
+        let packed_field_len = (field.bit_width + 7) / 8;
+        let start_byte = field.bit_range_rust.start / 8;
         let shift = ((packed_field_len as isize*8) - (field.bit_width as isize)) - (field.bit_range_rust.start as isize - (start_byte as isize * 8));
 
         let emit_shift = |s: isize| {
diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index 184f21b..d966a9a 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -441,7 +441,7 @@ pub fn parse_struct(ast: &syn::DeriveInput) -> syn::Result<PackStruct> {
         }
     };
 
-    let num_bytes = (num_bits as f32 / 8.0).ceil() as usize;
+    let num_bytes = (num_bits + 7) / 8;
 
     if first_field_is_auto_positioned && (num_bits % 8) != 0 && struct_size_bytes.is_none() {
         return Err(syn::Error::new(fields[0].span(), "Please explicitly position the bits of the first field of this structure, as the alignment isn't obvious to the end user."));
-- 
2.43.0


From fbf771ba75ecdbeff603e420a1440c2150c4ff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 09/12] fix: keep helpers of the generated code out of the
 user's namespace

The derives emitted a function debug_fields_<name> and a constant <NAME>_ALL
next to the user's type, named after its snake-case form: two structures or
two enums of one module whose names differ only by letter case or underscores
(LED and Led) did not compile, nor did types named by raw identifiers.
---
 .../src/pack_codegen_docs.rs                  | 12 ++-----
 packed_struct_codegen/src/primitive_enum.rs   |  7 ++--
 packed_struct_codegen/src/utils.rs            | 32 -------------------
 3 files changed, 7 insertions(+), 44 deletions(-)

diff --git a/packed_struct_codegen/src/pack_codegen_docs.rs b/packed_struct_codegen/src/pack_codegen_docs.rs
index 1deb17b..0ab2296 100644
--- a/packed_struct_codegen/src/pack_codegen_docs.rs
+++ b/packed_struct_codegen/src/pack_codegen_docs.rs
@@ -1,16 +1,12 @@
 use crate::pack::*;
 use crate::common::*;
-use proc_macro2::Span;
 use quote::{ToTokens};
 use syn::parse_quote;
-use crate::utils::*;
 
 pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2::TokenStream> {
     let (impl_generics, ty_generics, where_clause) = parsed.derive_input.generics.split_for_impl();
     let name = &parsed.derive_input.ident;
-    let snake_name = to_snake_case(&name.to_string());
     let stdlib_prefix = collections_prefix();
-    let debug_fields_fn = syn::Ident::new(&format!("debug_fields_{}", snake_name), Span::call_site());
 
     let display_header = format!("{} ({} {})",
         name,
@@ -56,17 +52,13 @@ pub fn struct_runtime_formatter(parsed: &PackStruct) -> syn::Result<proc_macro2:
     let result_ty = result_type();
 
     let q = quote! {
-        #[doc(hidden)]
-        pub fn #debug_fields_fn(src: &#name) -> [::packed_struct::debug_fmt::DebugBitField<'static>; #num_fields] {
-            [#(#debug_fields),*]
-        }
-
         #[allow(unused_imports)]
         impl #impl_generics ::packed_struct::debug_fmt::PackedStructDebug for #name #ty_generics #where_clause {
             fn fmt_fields(&self, fmt: &mut #stdlib_prefix::fmt::Formatter) -> #result_ty <(), #stdlib_prefix::fmt::Error> {
                 use ::packed_struct::PackedStruct;
                 
-                let fields = #debug_fields_fn(self);
+                let src = self;
+                let fields: [::packed_struct::debug_fmt::DebugBitField<'static>; #num_fields] = [#(#debug_fields),*];
                 let packed: [u8; #num_bytes] = self.pack()?;
                 ::packed_struct::debug_fmt::packable_fmt_fields(fmt, &packed, &fields)
             }
diff --git a/packed_struct_codegen/src/primitive_enum.rs b/packed_struct_codegen/src/primitive_enum.rs
index 7d8936e..2403c5d 100644
--- a/packed_struct_codegen/src/primitive_enum.rs
+++ b/packed_struct_codegen/src/primitive_enum.rs
@@ -4,7 +4,6 @@ extern crate syn;
 use proc_macro2::Span;
 use quote::TokenStreamExt;
 use syn::spanned::Spanned;
-use crate::utils::*;
 use crate::common::collections_prefix;
 
 pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::Result<proc_macro2::TokenStream> {
@@ -105,7 +104,7 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
 
     let prim_type = prim_type.expect("Unable to detect the primitive type for this enum.");
 
-    let all_variants_const_ident = syn::Ident::new(&format!("{}_ALL", to_snake_case(&name.to_string())).to_uppercase(), Span::call_site());
+    let all_variants_const_ident = syn::Ident::new("ALL_VARIANTS", Span::call_site());
     
 
     let mut str_format = {
@@ -149,7 +148,9 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
         });
     };
 
+    // an unnamed constant, to keep the list of variants out of the scope of the user's names
     let q = quote! {
+        const _: () = {
 
         const #all_variants_const_ident: &'static [#name; #all_variants_len] = &[ #(#all_variants),* ];
 
@@ -187,6 +188,8 @@ pub fn derive(ast: &syn::DeriveInput, mut prim_type: Option<syn::Type>) -> syn::
         }
 
         #str_format
+
+        };
     };
     Ok(q)
 }
diff --git a/packed_struct_codegen/src/utils.rs b/packed_struct_codegen/src/utils.rs
index f2402af..276e049 100644
--- a/packed_struct_codegen/src/utils.rs
+++ b/packed_struct_codegen/src/utils.rs
@@ -41,35 +41,3 @@ pub fn ones_u8(n: u8) -> u8 {
         _ => 0b11111111
     }
 }
-
-
-// From rustc
-pub fn to_snake_case(mut str: &str) -> String {
-    let mut words = vec![];
-    // Preserve leading underscores
-    str = str.trim_start_matches(|c: char| {
-        if c == '_' {
-            words.push(String::new());
-            true
-        } else {
-            false
-        }
-    });
-    for s in str.split('_') {
-        let mut last_upper = false;
-        let mut buf = String::new();
-        if s.is_empty() {
-            continue;
-        }
-        for ch in s.chars() {
-            if !buf.is_empty() && buf != "'" && ch.is_uppercase() && !last_upper {
-                words.push(buf);
-                buf = String::new();
-            }
-            last_upper = ch.is_uppercase();
-            buf.extend(ch.to_lowercase());
-        }
-        words.push(buf);
-    }
-    words.join("_")
-}
-- 
2.43.0


From b553a695288bc967ae1c6cf90220f1001f840083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:54 +0000
Subject: [PATCH 10/12] fix: refuse attribute values that mean nothing

---
 .../src/pack_parse_attributes.rs                 | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index 5108df1..73d423e 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -31,7 +31,7 @@ pub enum PackStructAttribute {
 impl PackStructAttribute {
     pub fn parse(name: &str, val: &str) -> Result<Self, String> {
         if name == PackStructAttributeKind::DefaultIntEndianness.get_attr_name() {
-            let v = IntegerEndianness::from_str(val).ok_or_else(|| format!("Invalid default int endian value: {}", val))?;
+            let v = IntegerEndianness::from_str(val).expect("Invalid default int endian value");
             return Ok(PackStructAttribute::DefaultIntEndianness(v));
         }
 
@@ -41,7 +41,7 @@ impl PackStructAttribute {
         }
 
         if name == PackStructAttributeKind::SizeBytes.get_attr_name() {
-            let b = parse_num(val)?;
+            let b = parse_num(val).expect("Invalid size attribute value");
             return Ok(PackStructAttribute::SizeBytes(b));
         }
 
@@ -115,32 +115,32 @@ impl PackFieldAttribute {
         }
 
         if name == PackFieldAttributeKind::BitPosition.get_attr_name() {
-            let b = parse_position_val(val, 1)?;
+            let b = parse_position_val(val, 1).expect("Invalid bits position");
             return Ok(PackFieldAttribute::BitPosition(b));
         }
 
         if name == PackFieldAttributeKind::BytePosition.get_attr_name() {
-            let b = parse_position_val(val, 8)?;
+            let b = parse_position_val(val, 8).expect("Invalid bytes position");
             return Ok(PackFieldAttribute::BytePosition(b));
         }
 
         if name == PackFieldAttributeKind::SizeBytes.get_attr_name() {
-            let b = parse_num(val)?;
+            let b = parse_num(val).expect("Invalid size attribute value");
             return Ok(PackFieldAttribute::SizeBits(b * 8));
         }
 
         if name == PackFieldAttributeKind::SizeBits.get_attr_name() {
-            let b = parse_num(val)?;
+            let b = parse_num(val).expect("Invalid size attribute value");
             return Ok(PackFieldAttribute::SizeBits(b));
         }
 
         if name == PackFieldAttributeKind::ElementSizeBytes.get_attr_name() {
-            let b = parse_num(val)?;
+            let b = parse_num(val).expect("Invalid size attribute value");
             return Ok(PackFieldAttribute::ElementSizeBits(b * 8));
         }
 
         if name == PackFieldAttributeKind::ElementSizeBits.get_attr_name() {
-            let b = parse_num(val)?;
+            let b = parse_num(val).expect("Invalid size attribute value");
             return Ok(PackFieldAttribute::ElementSizeBits(b));
         }
 
-- 
2.43.0


From 7ff7da83d7eeef0399c4ec5354a6de664d1107af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:43 +0000
Subject: [PATCH 11/12] fix: refuse attributes that cannot be read instead of
 ignoring them

---
 packed_struct_codegen/src/pack_parse.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse.rs b/packed_struct_codegen/src/pack_parse.rs
index d966a9a..8876e02 100644
--- a/packed_struct_codegen/src/pack_parse.rs
+++ b/packed_struct_codegen/src/pack_parse.rs
@@ -23,21 +23,18 @@ pub fn parse_sub_attributes(attributes: &[syn::Attribute], main_attribute: &str,
         }
 
         if attr.path().is_ident(main_attribute) {
-            let nested = attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated);
-            let nested = if let Ok(nested) = nested {
-                nested
-            } else {
+            if let Meta::Path(_) = attr.meta {
                 continue;
-            };
+            }
+            let nested = attr.parse_args_with(Punctuated::<Meta, Token![,]>::parse_terminated)?;
             for meta in nested {
                 match meta {            
                     syn::Meta::Path(_) => (),
                     syn::Meta::List(_) => (),
                     syn::Meta::NameValue(nv) => {
-                        if let (Some(key), syn::Expr::Lit(lit)) = (nv.path.get_ident(), &nv.value) {
-                            if let syn::Lit::Str(lit) = &lit.lit {
-                                r.push((key.to_string(), lit.value()));
-                            }
+                        match (nv.path.get_ident(), &nv.value) {
+                            (Some(key), syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(lit), .. })) => r.push((key.to_string(), lit.value())),
+                            _ => return Err(syn::Error::new(nv.value.span(), "Attribute values are written as string literals."))
                         }
                     }
                 }
-- 
2.43.0


From 082c15ca84e172316a37e264e1fa881fbb54b18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:43 +0000
Subject: [PATCH 12/12] fix: an open-ended position has one number before its
 dots

---
 packed_struct_codegen/src/pack_parse_attributes.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/packed_struct_codegen/src/pack_parse_attributes.rs b/packed_struct_codegen/src/pack_parse_attributes.rs
index 73d423e..325233c 100644
--- a/packed_struct_codegen/src/pack_parse_attributes.rs
+++ b/packed_struct_codegen/src/pack_parse_attributes.rs
@@ -183,12 +183,10 @@ impl PackFieldAttribute {
 pub fn parse_position_val(v: &str, multiplier: usize) -> Result<BitsPositionParsed, String> {
     let v = v.trim();
     if v.ends_with("..") {
-        let v = v.replace("..", "");
-        let n = parse_num(&v)?;
+        let n = parse_num(&v[..v.len() - 2])?;
         return Ok(BitsPositionParsed::Start(n * multiplier));
     } else if v.ends_with(':') {
-        let v = v.replace(':', "");
-        let n = parse_num(&v)?;
+        let n = parse_num(&v[..v.len() - 1])?;
         return Ok(BitsPositionParsed::Start(n * multiplier));
     } else if v.contains(':') || v.contains("..=") {
         // inclusive
-- 
2.43.0

