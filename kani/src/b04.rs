//! B04: upgrading Bytes never lets borrowed data outlive its borrow.
use crate::common::*;
use safer_ffi::bytes::{Bytes, BytesVt};

/// Same contents as `s`, seen through the arbitrary index `AT`.
fn same_at(b: &Bytes<'_>, s: &[u8]) {
    let v = b.as_slice();
    assert!(b.len() == s.len() && v.len() == s.len(), "length preserved");
    if at() < s.len() { assert!(v[at()] == s[at()], "contents preserved") }
}
/// May this handle be held for ever, given that only an owner with a release function keeps `s` alive?
fn free_standing(b: &Bytes<'_>, s: &[u8], owned: bool) {
    if !owned { assert!(!views(b.as_slice(), s), "an unrestricted handle refers to borrowed memory") }
}
fn upgrade(b: Bytes<'_>, s: &[u8], owned: bool) {
    let u: Bytes<'static> = b.upgrade();
    same_at(&u, s);
    free_standing(&u, s, owned);
    core::mem::forget(u);
}
fn noalloc_upgrade(b: Bytes<'_>, s: &[u8], owned: bool, inlined: bool) {
    let p = b.as_slice().as_ptr();
    match b.noalloc_upgrade() {
        Ok(u) => {
            assert!(owned || inlined || s.len() <= Bytes::MAX_INLINE_SIZE, "no proof of the lifetime");
            same_at(&u, s);
            free_standing(&u, s, owned);
            core::mem::forget(u);
        }
        Err(b) => {
            assert!(!owned && !inlined && s.len() > Bytes::MAX_INLINE_SIZE, "refused without reason");
            assert!(b.as_slice().as_ptr() == p && b.len() == s.len(), "the original value comes back");
            core::mem::forget(b);
        }
    }
}
macro_rules! ops { ($($n:ident $f:ident $vt:ident $copied:ident $($extra:expr)?;)*) => { $(
    harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::$copied)] $n, unwind = 36, {
        let s: &'static [u8] = any_slice();
        any_at();
        kani::cover!(s.len() == 32);
        kani::cover!(s.len() == 33);
        $f(ghost(s, &$vt), s, $vt.release.is_some() $(, $extra)?);
    }}
)* }}
ops!{
    pq_upgrade_full upgrade VT_FULL no_copy;
    pq_upgrade_release upgrade VT_RELEASE no_copy;
    pq_upgrade_retain upgrade VT_RETAIN copied;
    pq_upgrade_none upgrade VT_NONE copied;
    pq_noalloc_full noalloc_upgrade VT_FULL no_copy false;
    pq_noalloc_release noalloc_upgrade VT_RELEASE no_copy false;
    pq_noalloc_retain noalloc_upgrade VT_RETAIN no_copy false;
    pq_noalloc_none noalloc_upgrade VT_NONE no_copy false;
}
// The library's own borrowed and static constructors.
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::copied)] pq_upgrade_from_slice, unwind = 36, {
    let s: &[u8] = any_slice();
    any_at();
    upgrade(Bytes::from_slice(s), s, false);
}}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] pq_noalloc_from_slice, unwind = 36, {
    let s: &[u8] = any_slice();
    any_at();
    noalloc_upgrade(Bytes::from_slice(s), s, false, s.len() <= 32);
}}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] pq_upgrade_static, unwind = 36, {
    let s: &'static [u8] = any_slice();
    any_at();
    upgrade(Bytes::from_static(s), s, true);
    noalloc_upgrade(Bytes::from_static(s), s, true, false);
}}
// What was derived from borrowed data is still borrowed: slices, splits and clones of it.
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::copied)] pq_upgrade_derived, unwind = 36, {
    let s: &[u8] = any_slice_min(33);
    any_at();
    let b = Bytes::from_slice(s);
    let lo: usize = kani::any();
    kani::assume(lo <= s.len() && s.len() - lo > 32);
    let c = b.clone().subsliced(lo..);
    upgrade(c, &s[lo..], false);
    core::mem::forget(b);
}}
harness!{ pq_noalloc_derived, unwind = 36, {
    let s: &[u8] = any_slice_min(33);
    any_at();
    let b = Bytes::from_slice(s);
    let lo: usize = kani::any();
    kani::assume(lo <= s.len() && s.len() - lo > 32);
    noalloc_upgrade(b.subsliced(lo..), &s[lo..], false, false);
}}
// Inlined values are free-standing already.
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] pq_upgrade_inlined, unwind = 36, {
    let a: [u8; 32] = kani::any();
    let s = &a[..below(33)];
    any_at();
    if kani::any() { upgrade(Bytes::inline_slice(s).unwrap(), s, false) }
    else { noalloc_upgrade(Bytes::inline_slice(s).unwrap(), s, false, true) }
}}
// With nothing replaced: the real copy, at any length.
harness!{ pq_upgrade_real_copy, unwind = 36, {
    let s: &[u8] = any_slice();
    any_at();
    upgrade(Bytes::from_slice(s), s, false);
}}
