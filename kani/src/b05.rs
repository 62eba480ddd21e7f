//! B05: Bytes predicts correctly whether cloning or upgrading will allocate.
//!
//! The only allocation these operations can make is the copy of the contents, `Bytes::copied_from_slice` beyond the
//! inline limit (or anything it is rewritten into: every result is also required to sit in the storage, or in the
//! handle, when no allocation was predicted).
use crate::common::*;
use safer_ffi::bytes::{Bytes, BytesVt};

/// Where the contents of `r` are: in the storage `s`, in the handle itself, or somewhere new.
fn elsewhere(r: &Bytes<'_>, s: &[u8]) -> bool {
    let h = unsafe { core::slice::from_raw_parts(r as *const _ as *const u8, core::mem::size_of::<Bytes<'static>>()) };
    r.len() > 0 && !views(r.as_slice(), s) && !views(r.as_slice(), h)
}
fn same_at(b: &Bytes<'_>, s: &[u8]) {
    let v = b.as_slice();
    assert!(v.len() == s.len(), "length preserved");
    if at() < s.len() { assert!(v[at()] == s[at()], "contents preserved") }
}
fn clone(b: Bytes<'_>, s: &[u8]) {
    let will = b.clone_will_allocate();
    let r = b.clone();
    assert!(will == elsewhere(&r, s), "clone_will_allocate is right");
    same_at(&r, s);
    core::mem::forget((b, r));
}
fn upgrade(b: Bytes<'_>, s: &[u8]) {
    let will = b.upgrade_will_allocate();
    let r = b.upgrade();
    assert!(will == elsewhere(&r, s), "upgrade_will_allocate is right");
    same_at(&r, s);
    core::mem::forget(r);
}
fn noalloc_clone(b: Bytes<'_>, s: &[u8]) {
    let will = b.clone_will_allocate();
    match b.noalloc_clone() {
        Some(r) => {
            assert!(!will, "a value that can only be copied to the heap was cloned without");
            assert!(!elsewhere(&r, s), "no allocation");
            same_at(&r, s);
            core::mem::forget(r);
        }
        None => assert!(will, "a value that can be cloned without allocating was refused"),
    }
    core::mem::forget(b);
}
macro_rules! ops { ($($n:ident $f:ident $vt:ident $copied:ident;)*) => { $(
    harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::$copied)] $n, unwind = 36, {
        let s: &'static [u8] = any_slice();
        any_at();
        kani::cover!(s.len() == 32);
        kani::cover!(s.len() == 33);
        kani::cover!(s.len() == 40);
        $f(ghost(s, &$vt), s);
    }}
)* }}
ops!{
    pq_clone_full clone VT_FULL copied;
    pq_clone_release clone VT_RELEASE copied;
    pq_clone_retain clone VT_RETAIN copied;
    pq_clone_none clone VT_NONE copied;
    pq_upgrade_full upgrade VT_FULL copied;
    pq_upgrade_release upgrade VT_RELEASE copied;
    pq_upgrade_retain upgrade VT_RETAIN copied;
    pq_upgrade_none upgrade VT_NONE copied;
    pq_noalloc_clone_full noalloc_clone VT_FULL no_copy;
    pq_noalloc_clone_release noalloc_clone VT_RELEASE no_copy;
    pq_noalloc_clone_retain noalloc_clone VT_RETAIN no_copy;
    pq_noalloc_clone_none noalloc_clone VT_NONE no_copy;
}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::copied)] pq_inlined, unwind = 36, {
    let a: [u8; 32] = kani::any();
    let s = &a[..below(33)];
    any_at();
    let b = Bytes::inline_slice(s).unwrap();
    assert!(!b.clone_will_allocate() && !b.upgrade_will_allocate(), "inlined values never allocate");
    match kani::any::<u8>() % 3 { 0 => clone(b, s), 1 => upgrade(b, s), _ => noalloc_clone(b, s) }
}}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::copied)] pq_from_slice, unwind = 36, {
    let s: &[u8] = any_slice();
    any_at();
    let b = Bytes::from_slice(s);
    match kani::any::<u8>() % 3 { 0 => clone(b, s), 1 => upgrade(b, s), _ => noalloc_clone(b, s) }
}}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::copied)] pq_from_static, unwind = 36, {
    let s: &'static [u8] = any_slice();
    any_at();
    let b = Bytes::from_static(s);
    assert!(!b.clone_will_allocate() && !b.upgrade_will_allocate(), "static data never has to be copied");
    match kani::any::<u8>() % 3 { 0 => clone(b, s), 1 => upgrade(b, s), _ => noalloc_clone(b, s) }
}}
// A part of a value is predicted like any other value.
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::copied)] pq_sliced, unwind = 36, {
    let s: &'static [u8] = any_slice_min(33);
    let lo: usize = kani::any();
    kani::assume(lo <= s.len() && s.len() - lo > 32);
    any_at();
    let b = ghost(s, &VT_RELEASE).subsliced(lo..);
    clone(b, &s[lo..]);
}}
// Nothing replaced: the owners of the heap, at any length.
harness!{ pt_box, unwind = 36, {
    let bx = any_box();
    any_at();
    let p = peek(&bx);
    let b: Bytes<'_> = Bytes::from(bx);
    assert!(b.clone_will_allocate() == (p.len() > 32));
    assert!(!b.upgrade_will_allocate());
    match kani::any::<u8>() % 3 { 0 => clone(b, p), 1 => upgrade(b, p), _ => noalloc_clone(b, p) }
}}
macro_rules! heap { ($($n:ident $l:literal)*) => { $(
    harness!{ $n, unwind = 44, {
        let a: [u8; $l] = kani::any();
        any_at();
        let bx: Box<[u8]> = Box::new(a);
        let p: &[u8] = unsafe { core::slice::from_raw_parts(bx.as_ptr(), $l) };
        let b: Bytes<'_> = Bytes::from(bx);
        assert!(b.clone_will_allocate() == ($l > 32));
        assert!(!b.upgrade_will_allocate());
        match kani::any::<u8>() % 3 { 0 => clone(b, p), 1 => upgrade(b, p), _ => noalloc_clone(b, p) }
    }}
)* }}
heap!{ bq_box_31 31  bq_box_32 32  bq_box_33 33  bq_box_40 40  bq_box_41 41 }
