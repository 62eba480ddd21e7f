//! Shared pieces of the contract harnesses: symbolic inputs, ghost state, and the attribute macro.
#![allow(dead_code, static_mut_refs)]
use std::alloc::{alloc, Layout};

// ---------------------------------------------------------------------------------------------
// Stubs: they only replace how a *panic message* is put together.  The panicking condition itself
// is kept; without them every formatting function of `core::fmt` becomes a candidate target of each
// call through a function pointer.
pub fn s_unwrap<T, E: core::fmt::Debug>(r: Result<T, E>) -> T {
    match r { Ok(t) => t, Err(_) => panic!("called `Result::unwrap()` on an `Err` value") }
}
pub fn s_expect<T, E: core::fmt::Debug>(r: Result<T, E>, _msg: &str) -> T {
    match r { Ok(t) => t, Err(_) => panic!("called `Result::expect()` on an `Err` value") }
}
pub fn s_slice_index_fail(_: usize, _: usize, _: usize) -> ! { panic!("slice index out of range") }

/// Declares a harness.  `p`: complete proof (no bound on its inputs); `b`: bounded stand-in;
/// second letter: `q`uick or `t`horough tier.  The prefix of the name is what tools/check.py reads.
#[macro_export]
macro_rules! harness_ {
    ($(#[$m:meta])* $n:ident, unwind = $u:literal, $b:block) => {
        #[kani::proof]
        #[kani::unwind($u)]
        #[kani::stub(core::result::Result::unwrap, $crate::common::s_unwrap)]
        #[kani::stub(core::result::Result::expect, $crate::common::s_expect)]
        #[kani::stub(core::slice::index::slice_index_fail, $crate::common::s_slice_index_fail)]
        $(#[$m])*
        pub fn $n() $b
    };
}
#[macro_export]
macro_rules! harness {
    ($(#[$m:meta])* $n:ident, unwind = $u:literal, $b:block) => {
        $crate::harness_! { $(#[$m])* $n, unwind = $u, {
            { $b };
            kani::cover!(true, "END: some input gets through the whole harness");
        }}
    };
}
/// A harness whose call must panic for every input: it has to reach a panic, and never return.
#[macro_export]
macro_rules! panics {
    ($(#[$m:meta])* $n:ident, unwind = $u:literal, $b:block) => {
        $crate::harness_! { #[kani::should_panic] $(#[$m])* $n, unwind = $u, {
            { $b };
            kani::cover!(true, "NEVER: the call returned instead of panicking");
            #[cfg(test)] { println!("REPLAYED: the call returned instead of panicking"); std::process::abort() }
        }}
    };
}

// ---------------------------------------------------------------------------------------------
/// 2^40: far beyond anything allocatable here, below CBMC's object size limit.
pub const HUGE: usize = 1 << 40;

/// Fresh, never freed memory of any length in 1..HUGE with arbitrary contents.
pub fn any_slice_min(min: usize) -> &'static mut [u8] {
    let n: usize = kani::any();
    kani::assume(n >= min && n > 0 && n < HUGE);
    unsafe {
        let p = alloc(Layout::from_size_align_unchecked(n, 1));
        #[cfg(test)] if p.is_null() { println!("cannot allocate {n} bytes here"); std::process::exit(0) }
        core::slice::from_raw_parts_mut(p, n)
    }
}
pub fn any_slice() -> &'static mut [u8] { any_slice_min(1) }
pub fn any_box() -> Box<[u8]> { unsafe { Box::from_raw(any_slice()) } }

pub fn any_box_min(min: usize) -> Box<[u8]> { unsafe { Box::from_raw(any_slice_min(min)) } }
/// A freshly allocated Arc of any length >= `min` with arbitrary contents, and one of its bytes.
pub fn any_arc(min: usize) -> std::sync::Arc<[u8]> { std::sync::Arc::from(any_box_min(min)) }
/// The contents of `a`, also after the value has been converted.
pub fn peek(a: &[u8]) -> &'static [u8] { unsafe { core::slice::from_raw_parts(a.as_ptr(), a.len()) } }

/// Any index below `n`.
pub fn below(n: usize) -> usize {
    let k: usize = kani::any();
    kani::assume(k < n);
    k
}

/// Does the view `v` lie in the memory of `s`?  (Addresses only: nothing is read.)
pub fn views(v: &[u8], s: &[u8]) -> bool {
    let (p, a) = (v.as_ptr() as usize, s.as_ptr() as usize);
    v.len() > 0 && p >= a && p < a + s.len()
}
/// Same length, and same byte at every index (one arbitrary index stands for all of them).
pub fn same(a: &[u8], b: &[u8]) {
    assert!(a.len() == b.len(), "same length");
    if a.len() > 0 {
        let k = below(a.len());
        assert!(a[k] == b[k], "same byte at every index");
    }
}

// ---------------------------------------------------------------------------------------------
// Ghost state: a reference-counted owner, all of whose functions are specified here.
// `LIVE` is the number of references handed out and not given back yet.
/// Makes the initial contents of a ghost variable unlike those of every constant: Kani gives a `static mut` and a constant
/// of the same contents one and the same memory (writing to one changes the other).
pub const TAG: u64 = 0x6768_6f73_7421_7461;
pub static mut LIVE: (i64, u64) = (0, TAG);
pub static mut RETAINED: (i64, u64) = (0, TAG);
pub static mut RELEASED: (i64, u64) = (0, TAG);
pub static mut OWNER: (usize, u64) = (0, TAG);
pub static mut CAP: (usize, u64) = (0, TAG);
pub unsafe extern "C" fn g_retain(o: *const (), c: usize) {
    assert!(o as usize == OWNER.0 && c == CAP.0, "retain gets the owner it was registered with");
    RETAINED.0 += 1;
    LIVE.0 += 1;
}
pub unsafe extern "C" fn g_release(o: *const (), c: usize) {
    assert!(o as usize == OWNER.0 && c == CAP.0, "release gets the owner it was registered with");
    assert!(LIVE.0 > 0, "no release beyond the references taken");
    RELEASED.0 += 1;
    LIVE.0 -= 1;
}
pub fn live() -> i64 { unsafe { LIVE.0 } }
pub fn retained() -> i64 { unsafe { RETAINED.0 } }
pub fn released() -> i64 { unsafe { RELEASED.0 } }

use safer_ffi::bytes::{Bytes, BytesVt};
pub static VT_FULL: BytesVt = BytesVt { retain: Some(g_retain), release: Some(g_release) };
pub static VT_RELEASE: BytesVt = BytesVt { retain: None, release: Some(g_release) };
pub static VT_RETAIN: BytesVt = BytesVt { retain: Some(g_retain), release: None };
pub static VT_NONE: BytesVt = BytesVt { retain: None, release: None };
/// Any of the four shapes of owner.
pub fn any_vt() -> &'static BytesVt {
    match kani::any::<u8>() % 4 { 0 => &VT_FULL, 1 => &VT_RELEASE, 2 => &VT_RETAIN, _ => &VT_NONE }
}
/// A `Bytes` over `s` with ghost ownership: arbitrary owner data, one reference held.
pub fn ghost(s: &'static [u8], vt: &'static BytesVt) -> Bytes<'static> {
    unsafe {
        OWNER.0 = kani::any();
        CAP.0 = kani::any();
        LIVE.0 = 1;
        Bytes::from_raw_parts(s, OWNER.0 as *const (), CAP.0, vt)
    }
}

// ---------------------------------------------------------------------------------------------
// Callees replaced by their contracts (modular proofs).  Which harness uses which is in its attributes;
// the contracts themselves are discharged on the real bodies elsewhere (named in each comment).

pub struct C<'a>(core::marker::PhantomData<&'a ()>);
impl<'a> C<'a> {
    /// `Bytes::copied_from_slice` for callers that may not copy at all: reaching it is a failure.
    pub fn no_copy(_slice: &[u8]) -> Bytes<'static> {
        panic!("PRE: contents are copied although they can be shared or inlined")
    }
    /// `Bytes::copied_from_slice` by contract: short contents come back inlined; long ones in fresh memory of the
    /// same length, with the same byte at the arbitrary index `AT`, owned by one reference of a shareable owner.
    /// The contract is discharged on the real body by b01::pq_copied_short and b01::pq_copied_long.
    pub fn copied(slice: &[u8]) -> Bytes<'static> {
        if slice.len() <= Bytes::MAX_INLINE_SIZE {
            return Bytes::inline_slice(slice).unwrap();
        }
        unsafe {
            let d = core::slice::from_raw_parts_mut(alloc(Layout::from_size_align_unchecked(slice.len(), 1)), slice.len());
            if AT.0 < slice.len() { d[AT.0] = slice[AT.0]; }
            COPIES.0 += 1;
            COPY_LIVE.0 += 1;
            COPY.0 = d.as_ptr();
            Bytes::from_raw_parts(d, d.as_ptr().cast(), d.len(), &VT_COPY)
        }
    }
}
/// The arbitrary index through which contents are compared when a copy is replaced by its contract.
pub static mut AT: (usize, u64) = (0, TAG);
pub fn at() -> usize { unsafe { AT.0 } }
pub fn any_at() { unsafe { AT.0 = kani::any() } }
pub static mut COPIES: (i64, u64) = (0, TAG);
pub static mut COPY_LIVE: (i64, u64) = (0, TAG);
pub static mut COPY: (*const u8, u64) = (core::ptr::null(), TAG);
pub fn copies() -> i64 { unsafe { COPIES.0 } }
pub fn copy_live() -> i64 { unsafe { COPY_LIVE.0 } }
unsafe extern "C" fn k_retain(o: *const (), _: usize) {
    assert!(o as *const u8 == COPY.0, "retain gets the owner of the copy");
    COPY_LIVE.0 += 1
}
unsafe extern "C" fn k_release(o: *const (), _: usize) {
    assert!(o as *const u8 == COPY.0, "release gets the owner of the copy");
    assert!(COPY_LIVE.0 > 0, "no release beyond the references taken");
    COPY_LIVE.0 -= 1
}
static VT_COPY: BytesVt = BytesVt { retain: Some(k_retain), release: Some(k_release) };
/// `[T]::copy_from_slice`, seen through one arbitrary address of the destination (`WATCH`): the harness
/// observes no other byte of the destination.  Trusted: the standard library copies slices.
pub static mut WATCH: (*const u8, u64) = (core::ptr::null(), TAG);
pub fn c_copy_from_slice<T: Copy>(dst: &mut [T], src: &[T]) {
    assert!(dst.len() == src.len(), "copy_from_slice: lengths differ");
    unsafe {
        let a = dst.as_ptr() as usize;
        let w = WATCH.0 as usize;
        if w >= a && w < a + dst.len() * core::mem::size_of::<T>() {
            let off = (w - a) / core::mem::size_of::<T>();
            dst[off] = src[off];
        }
    }
}
