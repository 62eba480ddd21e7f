From 49eecfc90f2ee2652a734939e004ee699d004de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 01/13] hook: let the crate compile under Kani (cfg(kani) only)

---
 src/_lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/_lib.rs b/src/_lib.rs
index 61779b1..7aed0c0 100644
--- a/src/_lib.rs
+++ b/src/_lib.rs
@@ -522,6 +522,9 @@ mod __ {
                 self,
                 prelude::rust_2021::*,
             };
+            // Disambiguates the two globs above for the (newer) toolchain of the verifier.
+            #[cfg(kani)]
+            pub use ::std::panic;
         },
         feature = "alloc" => {
             pub use {
-- 
2.43.0


From db2e1aa3d607b48ff87c38261706a5d4bce32c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 02/13] fix: bounds-check Bytes::shrink_to against the actual
 length

The raw `len` field holds data bytes when the value is inlined: slicing an
inlined Bytes panicked spuriously, or accepted out-of-bounds ranges.
---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 4226029..6682157 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -232,7 +232,7 @@ impl<'a> Bytes<'a> {
             core::ops::Bound::Unbounded => self.len(),
         };
         assert!(start <= end);
-        assert!(end <= self.len);
+        assert!(end <= self.len());
         let len = end - start;
         if len <= Self::MAX_INLINE_SIZE {
             // SAFETY: `&self[start..end]` length has been checked, which is `inline_unchecked`'s only safety requirement.
-- 
2.43.0


From e25379dd20c368884a0fa940f5685277c9726383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 03/13] fix: do not wrap around on extreme range bounds in
 Bytes::shrink_to

Without overflow checks, `..=usize::MAX` and an excluded start of `usize::MAX`
wrapped to 0 and silently sliced something else instead of panicking.
---
 src/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 6682157..0bca3be 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -223,11 +223,11 @@ impl<'a> Bytes<'a> {
     pub fn shrink_to<R: RangeBounds<usize>>(&mut self, range: R) {
         let start = match range.start_bound() {
             core::ops::Bound::Included(i) => *i,
-            core::ops::Bound::Excluded(i) => *i + 1,
+            core::ops::Bound::Excluded(i) => i.checked_add(1).expect("range start overflows"),
             core::ops::Bound::Unbounded => 0,
         };
         let end = match range.end_bound() {
-            core::ops::Bound::Included(i) => *i + 1,
+            core::ops::Bound::Included(i) => i.checked_add(1).expect("range end overflows"),
             core::ops::Bound::Excluded(i) => *i,
             core::ops::Bound::Unbounded => self.len(),
         };
-- 
2.43.0


From 44384acaeef16021ebeba1b922a881b1f06414d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 04/13] fix: Bytes::noalloc_upgrade had its borrow check
 inverted

Borrowed data was given the 'static lifetime, while owned and static data was
refused.
---
 src/bytes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index 0bca3be..c9705cb 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -346,7 +346,7 @@ impl<'a> Bytes<'a> {
     /// # Errors
     /// Returns the original instance if it couldn't be proven to be `'static`.
     pub fn noalloc_upgrade(self: Bytes<'a>) -> Result<Bytes<'static>, Self> {
-        if !self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
+        if self.vtable().map_or(true, |vt| !vt.is_borrowed()) {
             Ok(unsafe { mem::transmute(self) })
         } else {
             Self::inline_slice(&self).ok_or(self)
-- 
2.43.0


From 559d57c9024ca1923ba054ee670a5dc5596d8635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 05/13] fix: allocation predictions of Bytes use the inline
 limit

Values of MAX_INLINE_SIZE + 1 ..= size_of::<Bytes>() - 1 bytes were predicted
not to allocate although they are too long to be inlined.
---
 src/bytes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index c9705cb..d9dcaa5 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -374,7 +374,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Self::upgrade`] would cause an allocation.
     pub fn upgrade_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.is_borrowed() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.is_borrowed() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
@@ -382,7 +382,7 @@ impl<'a> Bytes<'a> {
     /// Returns `true` if a call to [`Clone::clone`] would cause an allocation.
     pub fn clone_will_allocate(&self) -> bool {
         match self.vtable() {
-            Some(t) => t.retain.is_none() && self.len() >= mem::size_of::<Self>(),
+            Some(t) => t.retain.is_none() && self.len() > Self::MAX_INLINE_SIZE,
             None => false,
         }
     }
-- 
2.43.0


From d31bb572b6e44d236424e639dd9329133bfca0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:17 +0000
Subject: [PATCH 06/13] fix: Bytes::noalloc_clone inlines short contents that
 cannot be shared

---
 src/bytes.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bytes.rs b/src/bytes.rs
index d9dcaa5..a1c2650 100644
--- a/src/bytes.rs
+++ b/src/bytes.rs
@@ -359,7 +359,10 @@ impl<'a> Bytes<'a> {
             // SAFETY: `Bytes` is `Copy` if it is inlined.
             return Some(unsafe { core::ptr::read(self) });
         };
-        let retain = vtable.retain?;
+        let Some(retain) = vtable.retain else {
+            // Not shareable, but short contents can still be duplicated without allocating.
+            return Self::inline_slice(self.as_slice());
+        };
         unsafe { retain(self.owner, self.capacity) };
         Some(Self {
             start: self.start,
-- 
2.43.0


From 147bebdc3c41c36a2d6600e89de77c61aa7c8022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:46 +0000
Subject: [PATCH 07/13] fix: a null Out pointer is not a valid Out

ReprC::is_valid for Out<'_, T> only looked at the alignment, so that a
NULL coming from C was accepted and transmuted into an Out, which is a
non-null pointer (its own HasNiche impl relies on that).
---
 src/layout/impls.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/layout/impls.rs b/src/layout/impls.rs
index ea518a3..b1a7835 100644
--- a/src/layout/impls.rs
+++ b/src/layout/impls.rs
@@ -1016,6 +1016,7 @@ impl_ReprC_for! { unsafe {
     @for['out, T : 'out + Sized + ReprC]
     Out<'out, T>
         => |ref it: *mut T::CLayout| {
+            it.is_null().not() &&
             (*it as usize) % ::core::mem::align_of::<T>() == 0
         },
 }}
-- 
2.43.0


From f0c97154940522663c6f078371aa420215a5b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:49 +0000
Subject: [PATCH 08/13] fix: derived enums with a variant named discriminant

The derived ReprC::is_valid declared one constant per variant, named like
the variant, so that a variant named `discriminant` shadowed the value
to check and every integer was accepted.
---
 src/proc_macro/derives/repr_c/enum_.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index 6b7893e..f5505db 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -240,11 +240,7 @@ fn derive (
                     &#EnumName_Layout { discriminant }: &'_ Self::CLayout,
                 ) -> #ඞ::bool
                 {
-                    #![allow(nonstandard_style)]
-                #(
-                    const #EachVariant: #Int = #EnumName::#EachVariant as _;
-                )*
-                    #ඞ::matches!(discriminant, #( #EachVariant )|*)
+                    #( discriminant == #EnumName::#EachVariant as #Int )||*
                 }
             }
         )
-- 
2.43.0


From d1c8ba6ac603150651c88cb41701b5e0b4638b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:20 +0000
Subject: [PATCH 09/13] fix: keep the name given to an exported async fn

---
 src/proc_macro/ffi_export/fn_/async_fn.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proc_macro/ffi_export/fn_/async_fn.rs b/src/proc_macro/ffi_export/fn_/async_fn.rs
index 00a98c4..ccf6522 100644
--- a/src/proc_macro/ffi_export/fn_/async_fn.rs
+++ b/src/proc_macro/ffi_export/fn_/async_fn.rs
@@ -318,8 +318,11 @@ fn export (
         let pub_ = &fun.vis;
         let each_attr = &fun.attrs;
         fun_signature.asyncness = None;
+        let rename = rename.as_ref().map(|Rename { new_name, .. }| quote!(
+            rename = #new_name
+        ));
         quote!(
-            #[::safer_ffi::ffi_export]
+            #[::safer_ffi::ffi_export(#rename)]
             #(#each_attr)*
             #pub_ #fun_signature
             {
-- 
2.43.0


From 233cb6f64f0c42d4f2222036fa9b4cc9884913e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:19 +0000
Subject: [PATCH 10/13] fix: stable headers silently dropped the second of two
 exports of the same name

---
 src/headers/_mod.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/headers/_mod.rs b/src/headers/_mod.rs
index 8bcd974..f39c48d 100644
--- a/src/headers/_mod.rs
+++ b/src/headers/_mod.rs
@@ -399,15 +399,19 @@ impl Builder<'_, WhereTo> {
         ;
         let (mut storage0, mut storage1) = (None, None);
         let gen_defs: &mut dyn Iterator<Item = _> = if stable_header {
-            storage0.get_or_insert(
-                crate::inventory::iter
-                    .into_iter()
-                    .map(|crate::FfiExport { name, gen_def }| (name, gen_def))
-                    // Sort the definitions for a reliable header generation.
-                    .collect::<::std::collections::BTreeMap<_, _>>()
-                    .into_iter()
-                    .map(|(_, gen_def)| gen_def)
-            )
+            storage0.get_or_insert({
+                let mut gen_defs =
+                    crate::inventory::iter
+                        .into_iter()
+                        .map(|crate::FfiExport { name, gen_def }| (*name, gen_def))
+                        .collect::<rust::Vec<_>>()
+                ;
+                // Sort the definitions for a reliable header generation. Note
+                // that two exports may (wrongly) have the same name: it is up
+                // to the second `gen_def` to notice, so keep both.
+                gen_defs.sort_by_key(|&(name, _)| name);
+                gen_defs.into_iter().map(|(_, gen_def)| gen_def)
+            })
         } else {
             storage1.get_or_insert(
                 crate::inventory::iter
-- 
2.43.0


From 1a15d0674171f58ed16b358e355ccf91051b4213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:19 +0000
Subject: [PATCH 11/13] fix: two exported constants of the same name were both
 written to the header instead of being refused

---
 src/proc_macro/ffi_export/const_.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/proc_macro/ffi_export/const_.rs b/src/proc_macro/ffi_export/const_.rs
index 93ab257..0f571fd 100644
--- a/src/proc_macro/ffi_export/const_.rs
+++ b/src/proc_macro/ffi_export/const_.rs
@@ -79,6 +79,19 @@ fn handle (
                         definer: &'_ mut dyn #ඞ::Definer,
                         lang: #ඞ::Language,
                     | {
+                        if ! definer.insert(#VAR_str) {
+                            return #ඞ::result::Result::Err(
+                                #ඞ::io::Error::new(
+                                    #ඞ::io::ErrorKind::AlreadyExists,
+                                    #ඞ::concat!(
+                                        "Error, attempted to declare `",
+                                        #VAR_str,
+                                        "` while another declaration already exists",
+                                    ),
+                                )
+                            );
+                        }
+
                         #krate::__with_cfg_python__!(|$if_cfg_python| {
                             use #krate::headers::{
                                 Language,
-- 
2.43.0


From 3c0ab4100d8b5601c1623d7221967a5f2efef7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:19 +0000
Subject: [PATCH 12/13] fix: enum discriminants in generated headers were
 evaluated as i32 instead of the enum's integer type

---
 src/proc_macro/derives/repr_c/enum_.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proc_macro/derives/repr_c/enum_.rs b/src/proc_macro/derives/repr_c/enum_.rs
index f5505db..4294d23 100644
--- a/src/proc_macro/derives/repr_c/enum_.rs
+++ b/src/proc_macro/derives/repr_c/enum_.rs
@@ -138,9 +138,10 @@ fn derive (
         let ref each_enum_variant =
             variants.try_vmap(|v| Result::Ok({
                 let ref VariantName_str = v.ident.to_string();
-                let discriminant = if let Some((_eq, disc)) = &v.discriminant {
+                let discriminant = if v.discriminant.is_some() {
+                    let VariantName @ _ = &v.ident;
                     quote!(
-                        #ඞ::Some(&(#disc, ).0 as _)
+                        #ඞ::Some(&(#EnumName::#VariantName as #Int) as _)
                     )
                 } else {
                     quote!(
-- 
2.43.0


From e8fb33254a2de268f871a8b0c5e10d3f8924eccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:03 +0000
Subject: [PATCH 13/13] hook: let the verifier reach utils::screaming_case
 (cfg(kani) only)

---
 src/_lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_lib.rs b/src/_lib.rs
index 7aed0c0..2d5e153 100644
--- a/src/_lib.rs
+++ b/src/_lib.rs
@@ -34,6 +34,10 @@ extern crate macro_rules_attribute;
 mod __utils__;
 use __utils__ as utils;
 
+#[cfg(kani)]
+#[doc(hidden)] /** For verification only */ pub
+use utils::screaming_case as __screaming_case;
+
 #[apply(hidden_export)]
 use ::paste;
 
-- 
2.43.0

