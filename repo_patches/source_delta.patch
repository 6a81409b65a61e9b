From b84d0d40b09431b2d1958bdd24bdbbe369169c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:59 +0000
Subject: [PATCH 1/5] fix: return storage read errors while checking key hashes
 instead of panicking

---
 src/storage_data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage_data.rs b/src/storage_data.rs
index 4f35a76..adb1f37 100644
--- a/src/storage_data.rs
+++ b/src/storage_data.rs
@@ -268,7 +268,7 @@ macro_rules! check_hash {
                             position_decoder_starts,
                             *position - position_decoder_starts,
                         )
-                        .expect("positions checked, valid slice")
+                        .map_err(|e| StorageError::ParsingKey(ParserError::Buffer(e)))?
                         .as_ref(),
                 )
             {
-- 
2.43.0


From cff501b8a1a8b8ebf15744b5ec1fe59955d9ed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 2/5] fix: keep both halves of every element when patching u64
 bitvecs on 32bit targets

---
 src/decoding_sci.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index e1ad394..7c081c3 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1076,7 +1076,7 @@ macro_rules! impl_patched {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, element) in data_chunked.iter().enumerate() {
+    for element in data_chunked.iter() {
         let new_element1 = u32::from_le_bytes(
             element[..BYTES_PER_ELEMENT_U32]
                 .try_into()
@@ -1088,9 +1088,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .expect("constant size slice, always fits"),
         );
         data_reformed.push(new_element1);
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element2)
-        }
+        data_reformed.push(new_element2);
     }
     data_reformed
 }
@@ -1099,7 +1097,7 @@ fn reform_vec_lsb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
 #[cfg(any(target_pointer_width = "32", test))]
 fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
     let mut data_reformed: Vec<u32> = Vec::new();
-    for (i, x) in data_chunked.iter().enumerate() {
+    for x in data_chunked.iter() {
         let number = u64::from_le_bytes(*x);
         let element = number.to_be_bytes();
         let new_element1 = u32::from_be_bytes(
@@ -1112,9 +1110,7 @@ fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
                 .try_into()
                 .expect("constant size slice, always fits"),
         );
-        if (new_element1 != 0) || (i != data_chunked.len() - 1) {
-            data_reformed.push(new_element1)
-        }
+        data_reformed.push(new_element1);
         data_reformed.push(new_element2);
     }
     data_reformed
-- 
2.43.0


From 8870fe5c5196b95bf742461fcb140bda50030053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:53 +0000
Subject: [PATCH 3/5] fix: report read faults and oversized u64 bitvecs as
 errors on 32bit targets

---
 src/decoding_sci.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index 7c081c3..de4bc13 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -1020,10 +1020,14 @@ const BYTES_PER_ELEMENT_U64: usize = 8;
 #[cfg(any(target_pointer_width = "32", test))]
 const BYTES_PER_ELEMENT_U32: usize = 4;
 
+/// Maximum number of bits in a `BitVec`, as limited in `parity_scale_codec`.
+#[cfg(any(target_pointer_width = "32", test))]
+const BITVEC_MAX_BITS: usize = 0x1fff_ffff;
+
 /// Implement `Patched` for available `BitOrder` types.
 #[cfg(any(target_pointer_width = "32", test))]
 macro_rules! impl_patched {
-    ($($bitorder: ty, $reform_vec_fn: ident), *) => {
+    ($($bitorder: ty, $reform_vec_fn: ident, $name: expr), *) => {
         $(
             impl Patched for $bitorder {
                 fn patch_bitvec_u64<B, E>(data: &B, ext_memory: &mut E, position: &mut usize) -> Result<BitVec<u32, Self>, ParserError<E>>
@@ -1045,6 +1049,9 @@ macro_rules! impl_patched {
                                     .try_into()
                                     .expect("constant size slice, always fits"),
                             ),
+                            Err(BufferError::External(e)) => {
+                                return Err(ParserError::Buffer(BufferError::External(e)))
+                            }
                             Err(_) => {
                                 return Err(ParserError::Buffer(
                                 BufferError::DataTooShort {
@@ -1055,6 +1062,14 @@ macro_rules! impl_patched {
                         }
                     }
 
+                    // same limit as for all other store types
+                    if bitvec_positions.bit_length > BITVEC_MAX_BITS {
+                        return Err(ParserError::TypeFailure {
+                            position: bitvec_positions.bitvec_start,
+                            ty: $name,
+                        });
+                    }
+
                     // collected all element chunks, safe to move the position to `BitVec` end,
                     // no more `position` moves made here
                     *position = bitvec_positions.bitvec_end;
@@ -1117,10 +1132,10 @@ fn reform_vec_msb0(data_chunked: Vec<[u8; BYTES_PER_ELEMENT_U64]>) -> Vec<u32> {
 }
 
 #[cfg(any(target_pointer_width = "32", test))]
-impl_patched!(Lsb0, reform_vec_lsb0);
+impl_patched!(Lsb0, reform_vec_lsb0, "BitVec<u64, Lsb0>");
 
 #[cfg(any(target_pointer_width = "32", test))]
-impl_patched!(Msb0, reform_vec_msb0);
+impl_patched!(Msb0, reform_vec_msb0, "BitVec<u64, Msb0>");
 
 /// Type of set element, resolved as completely as possible.
 ///
-- 
2.43.0


From 9dc2194f47c12e32b355f2d865feba4cd34f2ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 4/5] fix: avoid position overflow from claimed lengths on
 32bit targets

---
 src/decoding_sci.rs        | 13 +++++++++----
 src/lib.rs                 |  4 +++-
 src/unchecked_extrinsic.rs |  7 ++++---
 3 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index de4bc13..a12d895 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -2,9 +2,7 @@
 #[cfg(any(target_pointer_width = "32", test))]
 use bitvec::prelude::BitOrder;
 use bitvec::prelude::{BitVec, Lsb0, Msb0};
-#[cfg(any(target_pointer_width = "32", test))]
-use external_memory_tools::BufferError;
-use external_memory_tools::{AddressableBuffer, ExternalMemory};
+use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
 use num_bigint::{BigInt, BigUint};
 use parity_scale_codec::DecodeAll;
 use primitive_types::{H160, H512};
@@ -133,6 +131,13 @@ where
     let found_compact = find_compact::<u32, B, E>(data, ext_memory, *position)?;
     let str_length = found_compact.compact as usize;
     let text_start = found_compact.start_next_unit;
+    // could overflow on 32bit targets
+    let text_end = text_start
+        .checked_add(str_length)
+        .ok_or(BufferError::DataTooShort {
+            position: text_start,
+            minimal_length: str_length,
+        })?;
     let into_string = data.read_slice(ext_memory, text_start, str_length)?;
     let text = match String::from_utf8(into_string.as_ref().to_vec()) {
         Ok(b) => b,
@@ -145,7 +150,7 @@ where
     };
     let specialty = hint.string();
     let out = ParsedData::Text { text, specialty };
-    *position = text_start + str_length;
+    *position = text_end;
     Ok(out)
 }
 
diff --git a/src/lib.rs b/src/lib.rs
index b74f580..41172e6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -581,7 +581,9 @@ where
         let mut call_start: usize = 0;
         let call_length = get_compact::<u32, B, E>(data, ext_memory, &mut call_start)
             .map_err(|_| SignableError::CutSignable)? as usize;
-        let extensions_start = call_start + call_length;
+        let extensions_start = call_start
+            .checked_add(call_length)
+            .ok_or(SignableError::CutSignable)?;
         match data.read_slice(ext_memory, call_start, call_length) {
             Ok(_) => Ok(Self {
                 data,
diff --git a/src/unchecked_extrinsic.rs b/src/unchecked_extrinsic.rs
index d55d0a9..415ef48 100644
--- a/src/unchecked_extrinsic.rs
+++ b/src/unchecked_extrinsic.rs
@@ -90,19 +90,20 @@ where
     let extrinsic_length = get_compact::<u32, B, E>(input, ext_memory, &mut extrinsic_start)
         .map_err(|_| UncheckedExtrinsicError::FormatNoCompact)? as usize;
     let len = input.total_len();
-    match (extrinsic_start + extrinsic_length).cmp(&len) {
+    let extrinsic_end = extrinsic_start.saturating_add(extrinsic_length);
+    match extrinsic_end.cmp(&len) {
         Ordering::Greater => {
             return Err(UncheckedExtrinsicError::Parsing(ParserError::Buffer(
                 BufferError::DataTooShort {
                     position: len,
-                    minimal_length: extrinsic_start + extrinsic_length - len,
+                    minimal_length: extrinsic_end - len,
                 },
             )))
         }
         Ordering::Less => {
             return Err(UncheckedExtrinsicError::Parsing(
                 ParserError::SomeDataNotUsedBlob {
-                    from: extrinsic_start + extrinsic_length,
+                    from: extrinsic_end,
                 },
             ))
         }
-- 
2.43.0


From 7a91b085751416c3033a0858eaed685f010b7b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:03 +0000
Subject: [PATCH 5/5] fix: report external memory faults while checking special
 types

---
 src/decoding_sci.rs       |   3 +-
 src/special_indicators.rs | 143 +++++++++++++++++++++++++-------------
 2 files changed, 97 insertions(+), 49 deletions(-)

diff --git a/src/decoding_sci.rs b/src/decoding_sci.rs
index a12d895..4c69c18 100644
--- a/src/decoding_sci.rs
+++ b/src/decoding_sci.rs
@@ -281,7 +281,8 @@ where
     };
     let info_ty = Info::from_ty(&ty);
     propagated.add_info(&info_ty);
-    match SpecialtyTypeChecked::from_type::<B, E, M>(&ty, data, ext_memory, position, registry) {
+    match SpecialtyTypeChecked::try_from_type::<B, E, M>(&ty, data, ext_memory, position, registry)?
+    {
         SpecialtyTypeChecked::None => match &ty.type_def {
             TypeDef::Composite(x) => {
                 let field_data_set = decode_fields::<B, E, M>(
diff --git a/src/special_indicators.rs b/src/special_indicators.rs
index 743081f..dd2648b 100644
--- a/src/special_indicators.rs
+++ b/src/special_indicators.rs
@@ -7,13 +7,14 @@
 //! Additionally, some data should better be decoded directly as the custom type
 //! mentioned in metadata descriptors, rather than decoded as more generalized
 //! type and cast into custom type later on.
-use external_memory_tools::{AddressableBuffer, ExternalMemory};
+use external_memory_tools::{AddressableBuffer, BufferError, ExternalMemory};
 use scale_info::{form::PortableForm, Field, Path, Type, TypeDef, TypeDefPrimitive, Variant};
 
 use crate::std::{borrow::ToOwned, string::String, vec::Vec};
 
 use crate::cards::Info;
 use crate::decoding_sci::{husk_type, pick_variant};
+use crate::error::{ParserError, RegistryError};
 use crate::propagated::Checker;
 use crate::traits::{AsMetadata, ResolveType, SignedExtensionMetadata};
 
@@ -276,57 +277,72 @@ impl SignatureIndicator {
         E: ExternalMemory,
         M: AsMetadata<E>,
     {
-        if let Ok(husked_field_ty) =
-            husk_type::<E, M>(&field.ty, registry, ext_memory, Checker::new())
-        {
-            // check here that the underlying type is really `[u8; LEN]` array
-            let array_u8_length = match husked_field_ty.ty.type_def {
-                TypeDef::Array(signature_array_ty) => {
-                    let element_ty_id = signature_array_ty.type_param.id;
-                    if let Ok(element_ty) = registry.resolve_ty(element_ty_id, ext_memory) {
+        Self::try_from_field::<E, M>(field, ext_memory, registry).unwrap_or(Self::None)
+    }
+
+    /// `SignatureIndicator` for a [`Field`], with external memory errors
+    /// reported.
+    pub(crate) fn try_from_field<E, M>(
+        field: &Field<PortableForm>,
+        ext_memory: &mut E,
+        registry: &M::TypeRegistry,
+    ) -> Result<Self, RegistryError<E>>
+    where
+        E: ExternalMemory,
+        M: AsMetadata<E>,
+    {
+        let husked_field_ty =
+            match husk_type::<E, M>(&field.ty, registry, ext_memory, Checker::new()) {
+                Ok(a) => a,
+                Err(RegistryError::External(e)) => return Err(RegistryError::External(e)),
+                Err(RegistryError::Internal(_)) => return Ok(Self::None),
+            };
+        // check here that the underlying type is really `[u8; LEN]` array
+        let array_u8_length = match husked_field_ty.ty.type_def {
+            TypeDef::Array(signature_array_ty) => {
+                let element_ty_id = signature_array_ty.type_param.id;
+                match registry.resolve_ty(element_ty_id, ext_memory) {
+                    Ok(element_ty) => {
                         if let TypeDef::Primitive(TypeDefPrimitive::U8) = element_ty.type_def {
                             signature_array_ty.len
                         } else {
-                            return Self::None;
+                            return Ok(Self::None);
                         }
-                    } else {
-                        return Self::None;
                     }
+                    Err(RegistryError::External(e)) => return Err(RegistryError::External(e)),
+                    Err(RegistryError::Internal(_)) => return Ok(Self::None),
                 }
-                _ => return Self::None,
-            };
-            match &field.type_name {
-                Some(type_name) => match type_name.as_str() {
-                    a if SIGNATURE_ECDSA_ID_SET.contains(&a) => {
-                        if array_u8_length == substrate_crypto_light::ecdsa::SIGNATURE_LEN as u32 {
-                            Self::Ecdsa
-                        } else {
-                            Self::None
-                        }
+            }
+            _ => return Ok(Self::None),
+        };
+        let out = match &field.type_name {
+            Some(type_name) => match type_name.as_str() {
+                a if SIGNATURE_ECDSA_ID_SET.contains(&a) => {
+                    if array_u8_length == substrate_crypto_light::ecdsa::SIGNATURE_LEN as u32 {
+                        Self::Ecdsa
+                    } else {
+                        Self::None
                     }
-                    a if SIGNATURE_ED25519_ID_SET.contains(&a) => {
-                        if array_u8_length == substrate_crypto_light::ed25519::SIGNATURE_LEN as u32
-                        {
-                            Self::Ed25519
-                        } else {
-                            Self::None
-                        }
+                }
+                a if SIGNATURE_ED25519_ID_SET.contains(&a) => {
+                    if array_u8_length == substrate_crypto_light::ed25519::SIGNATURE_LEN as u32 {
+                        Self::Ed25519
+                    } else {
+                        Self::None
                     }
-                    a if SIGNATURE_SR25519_ID_SET.contains(&a) => {
-                        if array_u8_length == substrate_crypto_light::sr25519::SIGNATURE_LEN as u32
-                        {
-                            Self::Sr25519
-                        } else {
-                            Self::None
-                        }
+                }
+                a if SIGNATURE_SR25519_ID_SET.contains(&a) => {
+                    if array_u8_length == substrate_crypto_light::sr25519::SIGNATURE_LEN as u32 {
+                        Self::Sr25519
+                    } else {
+                        Self::None
                     }
-                    _ => Self::None,
-                },
-                None => Self::None,
-            }
-        } else {
-            Self::None
-        }
+                }
+                _ => Self::None,
+            },
+            None => Self::None,
+        };
+        Ok(out)
     }
 }
 
@@ -598,7 +614,28 @@ impl SpecialtyTypeChecked {
         E: ExternalMemory,
         M: AsMetadata<E>,
     {
-        match SpecialtyTypeHinted::from_type(ty) {
+        Self::try_from_type::<B, E, M>(ty, data, ext_memory, position, registry)
+            .unwrap_or(Self::None)
+    }
+
+    /// Get `SpecialtyTypeChecked` for a [`Type`], with external memory errors
+    /// reported.
+    ///
+    /// All other errors result in `SpecialtyTypeChecked::None`, the type is
+    /// then decoded without the specialty.
+    pub(crate) fn try_from_type<B, E, M>(
+        ty: &Type<PortableForm>,
+        data: &B,
+        ext_memory: &mut E,
+        position: &mut usize,
+        registry: &M::TypeRegistry,
+    ) -> Result<Self, ParserError<E>>
+    where
+        B: AddressableBuffer<E>,
+        E: ExternalMemory,
+        M: AsMetadata<E>,
+    {
+        let out = match SpecialtyTypeHinted::from_type(ty) {
             SpecialtyTypeHinted::None => Self::None,
             SpecialtyTypeHinted::AccountId32 => Self::AccountId32,
             SpecialtyTypeHinted::Era => Self::Era,
@@ -610,11 +647,11 @@ impl SpecialtyTypeChecked {
                     match pick_variant::<B, E>(&x.variants, data, ext_memory, *position) {
                         Ok(signature_variant) => {
                             if signature_variant.fields.len() == 1 {
-                                match SignatureIndicator::from_field::<E, M>(
+                                match SignatureIndicator::try_from_field::<E, M>(
                                     &signature_variant.fields[0],
                                     ext_memory,
                                     registry,
-                                ) {
+                                )? {
                                     SignatureIndicator::None => Self::None,
                                     SignatureIndicator::Ecdsa => {
                                         *position += ENUM_INDEX_ENCODED_LEN;
@@ -633,6 +670,9 @@ impl SpecialtyTypeChecked {
                                 Self::None
                             }
                         }
+                        Err(ParserError::Buffer(BufferError::External(e))) => {
+                            return Err(BufferError::External(e).into())
+                        }
                         Err(_) => Self::None,
                     }
                 } else {
@@ -675,12 +715,18 @@ impl SpecialtyTypeChecked {
                                             Self::None
                                         }
                                     }
-                                    Err(_) => Self::None,
+                                    Err(RegistryError::External(e)) => {
+                                        return Err(RegistryError::External(e).into())
+                                    }
+                                    Err(RegistryError::Internal(_)) => Self::None,
                                 }
                             } else {
                                 Self::None
                             }
                         }
+                        Err(ParserError::Buffer(BufferError::External(e))) => {
+                            return Err(BufferError::External(e).into())
+                        }
                         Err(_) => Self::None,
                     }
                 } else {
@@ -699,6 +745,7 @@ impl SpecialtyTypeChecked {
             SpecialtyTypeHinted::SignatureSr25519 => Self::SignatureSr25519,
             SpecialtyTypeHinted::SignatureEcdsa => Self::SignatureEcdsa,
             SpecialtyTypeHinted::UncheckedExtrinsic => Self::None,
-        }
+        };
+        Ok(out)
     }
 }
-- 
2.43.0

