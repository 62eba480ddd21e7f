//! B03: Bytes retain and release their storage exactly as often as needed.
//!
//! The invariant, over any owner: the references still held (`live`) are at least as many as the handles that view
//! the storage, each drop gives back at most one, and none is held once the handles are gone.  Each operation is
//! shown to re-establish it from an arbitrary handle; the operations on custom owners are unbounded in the length.
use crate::common::*;
use safer_ffi::bytes::{Bytes, BytesVt};
use std::sync::Arc;

/// After an operation on an owner that is released: the handles left, and the invariant all the way to the end.
fn settle(s: &[u8], vt: &'static BytesVt, a: Option<Bytes<'_>>, b: Option<Bytes<'_>>) {
    let counted = vt.release.is_some();
    let n = |x: &Option<Bytes<'_>>| match x { Some(x) if views(x.as_slice(), s) => 1i64, _ => 0 };
    if counted {
        assert!(live() >= n(&a) + n(&b), "a reference per handle that views the storage");
        assert!(vt.retain.is_some() || retained() == 0);
        let before = live();
        drop(a);
        assert!(before - live() <= 1 && live() >= n(&b), "a drop gives back one reference at most");
        drop(b);
        assert!(live() == 0, "everything is released once the handles are gone");
        assert!(released() == retained() + 1, "released once per reference taken");
    } else {
        drop(a);
        drop(b);
        assert!(released() == 0, "a value without release function is never released");
    }
    assert!(copy_live() == 0, "copies are released too");
    assert!(vt.retain.is_some() || retained() == 0, "no retain function, none called");
}
/// Any storage, any owner data, any part of it already sliced off.
fn start(vt: &'static BytesVt) -> (&'static [u8], Bytes<'static>) {
    let s: &'static [u8] = any_slice();
    (s, ghost(s, vt))
}
macro_rules! op { ($($n:ident $vt:ident, $copied:ident: |$s:ident, $b:ident| $e:expr;)*) => { $(
    harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::$copied)] $n, unwind = 36, {
        let ($s, $b) = start(&$vt);
        any_at();
        let (x, y) = $e;
        settle($s, &$vt, x, y);
    }}
)* }}
fn range(b: &Bytes<'_>) -> core::ops::Range<usize> {
    let (lo, hi) = (kani::any::<usize>(), kani::any::<usize>());
    kani::assume(lo <= hi && hi <= b.len());
    lo..hi
}
op!{
    pq_drop_full VT_FULL, no_copy: |s, b| (Some(b), None);
    pq_drop_release VT_RELEASE, no_copy: |s, b| (Some(b), None);
    pq_drop_retain VT_RETAIN, no_copy: |s, b| (Some(b), None);
    pq_drop_none VT_NONE, no_copy: |s, b| (Some(b), None);
    pq_clone_full VT_FULL, no_copy: |s, b| { let c = b.clone(); (Some(b), Some(c)) };
    pq_clone_full_swapped VT_FULL, no_copy: |s, b| { let c = b.clone(); (Some(c), Some(b)) };
    pq_clone_retain VT_RETAIN, no_copy: |s, b| { let c = b.clone(); (Some(b), Some(c)) };
    pq_clone_release VT_RELEASE, copied: |s, b| { let c = b.clone(); assert!(!views(c.as_slice(), s), "copied rather than shared"); (Some(b), Some(c)) };
    pq_clone_none VT_NONE, copied: |s, b| { let c = b.clone(); assert!(!views(c.as_slice(), s), "copied rather than shared"); (Some(b), Some(c)) };
    pq_noalloc_clone_full VT_FULL, no_copy: |s, b| { let c = b.noalloc_clone(); assert!(c.is_some()); (Some(b), c) };
    pq_noalloc_clone_release VT_RELEASE, no_copy: |s, b| { let c = b.noalloc_clone(); (c, Some(b)) };
    pq_shrink_full VT_FULL, no_copy: |s, b| { let r = range(&b); (Some(b.subsliced(r)), None) };
    pq_shrink_release VT_RELEASE, no_copy: |s, b| { let r = range(&b); (Some(b.subsliced(r)), None) };
    pq_shrink_none VT_NONE, no_copy: |s, b| { let r = range(&b); (Some(b.subsliced(r)), None) };
    pq_upgrade_full VT_FULL, no_copy: |s, b| (Some(b.upgrade()), None);
    pq_upgrade_release VT_RELEASE, no_copy: |s, b| (Some(b.upgrade()), None);
    pq_upgrade_none VT_NONE, copied: |s, b| (Some(b.upgrade()), None);
    pq_noalloc_upgrade_full VT_FULL, no_copy: |s, b| (Some(match b.noalloc_upgrade() { Ok(b) => b, Err(b) => b }), None);
    pq_noalloc_upgrade_none VT_NONE, no_copy: |s, b| (Some(match b.noalloc_upgrade() { Ok(b) => b, Err(b) => b }), None);
    pq_try_into_arc_err VT_FULL, no_copy: |s, b| match Arc::<[u8]>::try_from(b) { Ok(a) => { core::mem::forget(a); panic!("not an Arc") } Err(b) => (Some(b), None) };
}
// Splits: which side is long decides the branch.
fn split(s: &'static [u8], vt: &'static BytesVt, left_long: bool, right_long: bool) {
    let b = ghost(s, vt);
    any_at();
    let i: usize = kani::any();
    kani::assume(i <= s.len() && (i > 32) == left_long && (s.len() - i > 32) == right_long);
    match b.split_at(i) {
        Ok((l, r)) => if kani::any() { settle(s, vt, Some(l), Some(r)) } else { settle(s, vt, Some(r), Some(l)) },
        Err(b) => settle(s, vt, Some(b), None),
    }
}
macro_rules! splits { ($($n:ident $copied:ident $vt:ident $l:literal $r:literal;)*) => { $(
    harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::$copied)] $n, unwind = 36, { split(any_slice(), &$vt, $l, $r) }}
)* }}
splits!{
    pq_split_ll_full no_copy VT_FULL true true;
    pq_split_ls_full no_copy VT_FULL true false;
    pq_split_sl_full no_copy VT_FULL false true;
    pq_split_ss_full no_copy VT_FULL false false;
    pt_split_ll_release copied VT_RELEASE true true;
    pt_split_ls_release no_copy VT_RELEASE true false;
    pt_split_sl_release no_copy VT_RELEASE false true;
    pt_split_ll_none copied VT_NONE true true;
}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::copied)] bq_split_copying, unwind = 36, {
    let a: &'static [u8; 70] = Box::leak(Box::new(kani::any()));
    split(&a[..66 + below(5)], if kani::any() { &VT_RELEASE } else { &VT_NONE }, true, true)
}}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] pq_split_beyond, unwind = 36, {
    let (s, b) = start(&VT_FULL);
    let i: usize = kani::any();
    kani::assume(i > s.len());
    match b.split_at(i) { Ok(_) => panic!("accepted"), Err(b) => settle(s, &VT_FULL, Some(b), None) }
}}
// Inlined values touch no storage at all.
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] pq_inline_untouched, unwind = 36, {
    let a: [u8; 32] = kani::any();
    let b = Bytes::inline_slice(&a[..below(33)]).unwrap();
    let c = b.clone();
    let (r, i) = (range(&c), below(33));
    let d = c.subsliced(r);
    match b.split_at(i) { Ok((l, r)) => { drop(l); drop(r) } Err(b) => drop(b) }
    drop(d);
    assert!(retained() == 0 && released() == 0);
}}
