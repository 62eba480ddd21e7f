//! X01: exported functions.  `#[lift]` makes the generated C entry point nameable (see lift/src/lib.rs); it is called the way C
//! calls it.  Oracle: ghost counters and the arguments the Rust body saw; the allocator's bookkeeping for what is owned.
use crate::common::TAG;
use safer_ffi::prelude::*;
use safer_ffi::layout::{from_raw, into_raw, CLayoutOf};
use lift::lift;
use std::sync::Arc;

static mut CALLS: (i64, u64) = (0, TAG);
static mut DROPS: (i64, u64) = (0, TAG);
static mut SEEN: ([u64; 12], u64) = ([0; 12], TAG);
fn calls() -> i64 { unsafe { CALLS.0 } }
fn drops() -> i64 { unsafe { DROPS.0 } }
fn see(i: usize, x: u64) { unsafe { SEEN.0[i] = x } }
fn seen(i: usize) -> u64 { unsafe { SEEN.0[i] } }
/// The generated function must be callable by C with exactly these types.
macro_rules! raw { ($f:ident: ($($A:ty),*) -> $R:ty) => { {
    let f: extern "C" fn($(CLayoutOf<$A>),*) -> CLayoutOf<$R> = $f;
    f
}}}
fn same(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut i = 0;
    while i < a.len() && i < b.len() && a[i] == b[i] { i += 1 }
    a.len() == b.len() && i == a.len()
}

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Point { x: i16, y: u64, on: bool }
#[derive_ReprC]
#[repr(i8)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Low = -3, High = 100 }
#[derive_ReprC]
#[repr(C)]
pub struct Owned { n: u64, x: u8 }
impl Drop for Owned { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }
#[derive_ReprC]
#[repr(opaque)]
pub struct Hidden { n: u64 }
impl Drop for Hidden { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }

#[ffi_export]
#[lift]
pub fn ints(a: u8, b: i16, c: u32, d: i64, e: u64, f: bool, g: f64, h: usize) -> u64 {
    unsafe { CALLS.0 += 1 }
    see(0, a as u64); see(1, b as u64); see(2, c as u64); see(3, d as u64); see(4, e); see(5, f as u64); see(6, g.to_bits()); see(7, h as u64);
    a as u64 ^ e
}
harness! { pq_ints, unwind = 34, {
    let (a, b, c, d, e, f, h): (u8, i16, u32, i64, u64, bool, usize) = kani::any();
    let g: u64 = kani::any();
    let r = unsafe { raw!(ints__ffi_export__: (u8, i16, u32, i64, u64, bool, f64, usize) -> u64)(a, b, c, d, e, into_raw(f), f64::from_bits(g), h) };
    assert!(calls() == 1 && r == a as u64 ^ e, "the body runs once, its result comes back");
    assert!(seen(0) == a as u64 && seen(1) == b as u64 && seen(2) == c as u64 && seen(3) == d as u64 && seen(4) == e && seen(5) == f as u64
            && seen(6) == g && seen(7) == h as u64, "the arguments, in order");
    assert!(same(ints__export_name__, "ints"), "the C symbol");
}}
/// The same type many times: only the position tells the arguments apart.
#[ffi_export]
#[lift]
pub fn alike(a: u32, b: u32, c: u32, d: u32, e: u32, f: u32, g: u32, h: u32, i: u32, j: u32, k: u32, l: u32) {
    unsafe { CALLS.0 += 1 }
    let all = [a, b, c, d, e, f, g, h, i, j, k, l];
    let mut i = 0;
    while i < 12 { see(i, all[i] as u64); i += 1 }
}
harness! { pq_alike, unwind = 14, {
    let a: [u32; 12] = kani::any();
    alike__ffi_export__(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]);
    assert!(calls() == 1);
    let i: usize = kani::any_where(|i| *i < 12);
    assert!(seen(i) == a[i] as u64, "the arguments, in order");
    assert!(same(alike__export_name__, "alike"));
}}
#[ffi_export]
#[lift]
pub fn nothing() { unsafe { CALLS.0 += 1 } }
harness! { pq_nothing, unwind = 14, {
    nothing__ffi_export__();
    assert!(calls() == 1);
    nothing__ffi_export__();
    assert!(calls() == 2);
    assert!(same(nothing__export_name__, "nothing"));
}}
#[ffi_export]
#[lift]
pub fn structs(p: Point, k: Kind, q: Point) -> Point { unsafe { CALLS.0 += 1 } see(0, k as i8 as u64); see(1, q.y); if q.on { p } else { Point { x: q.x, ..p } } }
harness! { pq_structs, unwind = 14, {
    let p = Point { x: kani::any(), y: kani::any(), on: kani::any() };
    let q = Point { x: kani::any(), y: kani::any(), on: kani::any() };
    let k = if kani::any() { Kind::Low } else { Kind::High };
    let r = unsafe { raw!(structs__ffi_export__: (Point, Kind, Point) -> Point)(into_raw(p), into_raw(k), into_raw(q)) };
    let r = unsafe { from_raw::<Point>(r) }.unwrap();
    assert!(calls() == 1 && r == (if q.on { p } else { Point { x: q.x, ..p } }) && seen(0) == k as i8 as u64 && seen(1) == q.y);
}}
#[ffi_export]
#[lift]
pub fn enums(k: Kind) -> Kind { unsafe { CALLS.0 += 1 } if k == Kind::Low { Kind::High } else { Kind::Low } }
harness! { pq_enums, unwind = 14, {
    let k = if kani::any() { Kind::Low } else { Kind::High };
    let r = unsafe { from_raw::<Kind>(enums__ffi_export__(into_raw(k))) }.unwrap();
    assert!(r != k && calls() == 1);
}}
/// What is owned moves in once, and out once.
#[ffi_export]
#[lift]
pub fn owned(a: Owned, b: repr_c::Box<Owned>, keep: bool) -> repr_c::Box<Owned> {
    unsafe { CALLS.0 += 1 }
    see(0, a.n); see(1, b.n);
    assert!(drops() == 0);
    if keep { b } else { Box::new(a).into() }
}
harness! { pq_owned, unwind = 14, {
    let (x, y, keep): (u64, u64, bool) = kani::any();
    let r = unsafe { owned__ffi_export__(into_raw(Owned { n: x, x: 1 }), into_raw(repr_c::Box::<Owned>::from(Box::new(Owned { n: y, x: 2 }))), into_raw(keep)) };
    assert!(calls() == 1 && seen(0) == x && seen(1) == y && drops() == 1, "what is not returned is dropped, once");
    let r = unsafe { from_raw::<repr_c::Box<Owned>>(r) }.unwrap();
    assert!(r.n == if keep { y } else { x } && drops() == 1);
    drop(r);
    assert!(drops() == 2);
}}
#[ffi_export]
#[lift]
pub fn opaque(n: u64) -> repr_c::Box<Hidden> { unsafe { CALLS.0 += 1 } Box::new(Hidden { n }).into() }
#[ffi_export]
#[lift]
pub fn opaque_get(h: &Hidden) -> u64 { unsafe { CALLS.0 += 1 } h.n }
#[ffi_export]
#[lift]
pub fn opaque_set(h: &mut Hidden, n: u64) { unsafe { CALLS.0 += 1 } h.n = n }
#[ffi_export]
#[lift]
pub fn opaque_free(h: Option<repr_c::Box<Hidden>>) { unsafe { CALLS.0 += 1 } see(0, h.is_some() as u64); drop(h) }
harness! { pq_opaque, unwind = 14, {
    unsafe {
        let (n, m): (u64, u64) = kani::any();
        let h = opaque__ffi_export__(n);
        assert!(opaque_get__ffi_export__(core::mem::transmute_copy(&h)) == n && drops() == 0);
        opaque_set__ffi_export__(core::mem::transmute_copy(&h), m);
        assert!(opaque_get__ffi_export__(core::mem::transmute_copy(&h)) == m && drops() == 0 && calls() == 4);
        opaque_free__ffi_export__(core::mem::transmute_copy(&0usize));
        assert!(drops() == 0 && seen(0) == 0);
        opaque_free__ffi_export__(h);
        assert!(drops() == 1 && seen(0) == 1 && calls() == 6);
    }
}}
/// Borrowed arguments, with named lifetimes, come back as the same address.
#[ffi_export]
#[lift]
pub fn longest<'a>(a: c_slice::Ref<'a, u16>, b: c_slice::Ref<'a, u16>) -> c_slice::Ref<'a, u16> { unsafe { CALLS.0 += 1 } if a.len() < b.len() { b } else { a } }
harness! { pq_slices, unwind = 14, {
    let xs: [u16; 4] = kani::any();
    let (m, n): (usize, usize) = kani::any();
    kani::assume(m <= 4 && n <= 4);
    let (a, b) = (&xs[..m], &xs[4 - n..]);
    let r = unsafe { longest__ffi_export__(into_raw(c_slice::Ref::from(a)), into_raw(c_slice::Ref::from(b))) };
    let r = unsafe { from_raw::<c_slice::Ref<'_, u16>>(r) }.unwrap();
    let want = if m < n { b } else { a };
    assert!(calls() == 1 && r.as_ptr() == want.as_ptr() && r.len() == want.len());
}}
#[ffi_export]
#[lift]
pub fn outs(a: Out<'_, u32>, b: &mut u32, c: Option<&mut u32>) -> bool {
    unsafe { CALLS.0 += 1 }
    a.write(*b);
    *b = !*b;
    c.map(|c| *c ^= 5).is_some()
}
harness! { pq_outs, unwind = 14, {
    unsafe {
        let (old, b0, c0): (u32, u32, u32) = kani::any();
        let (mut a, mut b, mut c) = (old, b0, c0);
        let some: bool = kani::any();
        let cp: *mut u32 = if some { &mut c } else { core::ptr::null_mut() };
        let r = outs__ffi_export__(&mut a, &mut b, cp);
        assert!(from_raw::<bool>(r) == Some(some) && calls() == 1);
        assert!(a == b0 && b == !b0 && c == if some { c0 ^ 5 } else { c0 });
    }
}}
/// Strings and vectors.
#[ffi_export]
#[lift]
pub fn vectors(mut v: repr_c::Vec<u32>, x: u32) -> repr_c::Vec<u32> { unsafe { CALLS.0 += 1 } v.with_rust_mut(|v| v[0] = x); v }
harness! { pq_vectors, unwind = 14, {
    let (a, b, x): (u32, u32, u32) = kani::any();
    let v = std::vec![a, b];
    let (at, cap) = (v.as_ptr(), v.capacity());
    let r = unsafe { from_raw::<repr_c::Vec<u32>>(vectors__ffi_export__(into_raw(repr_c::Vec::from(v)), x)) }.unwrap();
    assert!(calls() == 1 && r.len() == 2 && r[0] == x && r[1] == b && r.as_ptr() == at);
    let v: Vec<u32> = r.into();
    assert!(v.capacity() == cap);
}}
#[ffi_export]
#[lift]
pub fn first_char(s: char_p::Ref<'_>) -> u8 { unsafe { CALLS.0 += 1 } s.to_bytes_with_null()[0] }
harness! { pq_char_p, unwind = 14, {
    let t: [u8; 3] = [kani::any(), kani::any(), 0];
    kani::assume(t[0] < 128 && t[1] < 128);
    let r = unsafe { first_char__ffi_export__(core::mem::transmute::<_, CLayoutOf<char_p::Ref<'_>>>(t.as_ptr())) };
    assert!(calls() == 1 && r == t[0]);
}}
/// Callbacks: plain function pointers and closures.
#[ffi_export]
#[lift]
pub fn apply(f: extern "C" fn(u32) -> u32, x: u32) -> u32 { unsafe { CALLS.0 += 1 } f(x) }
extern "C" fn twist(x: u32) -> u32 { unsafe { CALLS.0 += 10 } x ^ 0x55 }
harness! { pq_callback, unwind = 14, {
    let x = kani::any();
    let f: extern "C" fn(u32) -> u32 = twist;
    let r = unsafe { apply__ffi_export__(core::mem::transmute(f), x) };
    assert!(calls() == 11 && r == x ^ 0x55);
}}
#[ffi_export]
#[lift]
pub fn call_boxed(mut f: repr_c::Box<dyn Send + FnMut(u32) -> u32>, x: u32) -> u32 { unsafe { CALLS.0 += 1 } f.call(x) }
#[ffi_export]
#[lift]
pub fn keep_shared(f: repr_c::Arc<dyn Send + Sync + Fn(u32) -> u32>) -> repr_c::Arc<dyn Send + Sync + Fn(u32) -> u32> { unsafe { CALLS.0 += 1 } f }
harness! { pq_closures, unwind = 14, {
    let (x, k): (u32, u32) = kani::any();
    let o = Owned { n: 1, x: 1 };
    let f: repr_c::Box<dyn Send + FnMut(u32) -> u32> = Box::new(move |x: u32| { let _ = &o; unsafe { CALLS.0 += 10 } x ^ k }).into();
    assert!(unsafe { call_boxed__ffi_export__(into_raw(f), x) } == x ^ k && calls() == 11 && drops() == 1, "called once, dropped once");
    let f = Arc::new(move |x: u32| { unsafe { CALLS.0 += 100 } x ^ k });
    let mine = f.clone();
    let r = unsafe { keep_shared__ffi_export__(into_raw(repr_c::Arc::<dyn Send + Sync + Fn(u32) -> u32>::from(f))) };
    assert!(Arc::strong_count(&mine) == 2 && calls() == 12);
    let r = unsafe { from_raw::<repr_c::Arc<dyn Send + Sync + Fn(u32) -> u32>>(r) }.unwrap();
    assert!(r.call(x) == x ^ k && calls() == 112);
    drop(r);
    assert!(Arc::strong_count(&mine) == 1);
}}
/// Patterns for arguments; names that look generated.
#[ffi_export]
#[lift]
pub fn patterns(mut a: u32, _: u32, Point { x, y, on }: Point, [p, q]: [u8; 2], __arg_1: u16, ref r: i8) -> u32 {
    unsafe { CALLS.0 += 1 }
    a ^= 1;
    see(0, x as u64); see(1, y); see(2, on as u64); see(3, p as u64); see(4, q as u64); see(5, __arg_1 as u64); see(6, *r as u64);
    a
}
harness! { pq_patterns, unwind = 34, {
    let (a, b, c, d): (u32, u32, u16, i8) = kani::any();
    let (p, q): (u8, u8) = kani::any();
    let s = Point { x: kani::any(), y: kani::any(), on: kani::any() };
    let r = unsafe { patterns__ffi_export__(a, b, into_raw(s), into_raw([p, q]), c, d) };
    assert!(r == a ^ 1 && calls() == 1);
    assert!(seen(0) == s.x as u64 && seen(1) == s.y && seen(2) == s.on as u64 && seen(3) == p as u64 && seen(4) == q as u64 && seen(5) == c as u64 && seen(6) == d as u64);
}}
/// Other ways to write the function itself.
#[ffi_export]
#[lift]
pub extern "C" fn with_abi(a: u8) -> u8 { unsafe { CALLS.0 += 1 } !a }
#[ffi_export]
#[lift]
pub unsafe extern "C" fn with_unsafe(a: *const u8) -> u8 { unsafe { CALLS.0 += 1 } *a }
#[ffi_export]
#[lift]
pub fn early(a: u8) -> Option<&'static u32> { unsafe { CALLS.0 += 1 } static N: u32 = 7; if a < 9 { return None } Some(&N) }
harness! { pq_forms, unwind = 14, {
    let a = kani::any();
    assert!(with_abi__ffi_export__(a) == !a && calls() == 1);
    assert!(unsafe { with_unsafe__ffi_export__(&a) } == a && calls() == 2);
    let r = unsafe { from_raw::<Option<&'static u32>>(early__ffi_export__(a)) }.unwrap();
    assert!(r.copied() == (if a < 9 { None } else { Some(7) }) && calls() == 3);
    assert!(same(with_abi__export_name__, "with_abi") && same(with_unsafe__export_name__, "with_unsafe"));
}}
/// Under another name.
#[ffi_export(rename = "another_name")]
#[lift]
pub fn renamed(a: u32, b: u32) -> u32 { unsafe { CALLS.0 += 1 } a ^ b.rotate_left(1) }
harness! { pq_renamed, unwind = 14, {
    let (a, b): (u32, u32) = kani::any();
    assert!(renamed__ffi_export__(a, b) == a ^ b.rotate_left(1) && calls() == 1);
    assert!(same(renamed__export_name__, "another_name"), "the C symbol");
}}
/// Asynchronous, with an executor that blocks.
struct Twice(u8);
impl core::future::Future for Twice {
    type Output = ();
    fn poll(mut self: core::pin::Pin<&mut Self>, _: &mut core::task::Context<'_>) -> core::task::Poll<()> {
        if self.0 == 0 { return core::task::Poll::Ready(()) }
        self.0 -= 1;
        core::task::Poll::Pending
    }
}
mod exec {
    use super::*;
    use core::task::*;
    unsafe fn c(_: *const ()) -> RawWaker { RawWaker::new(core::ptr::null(), &VT) }
    unsafe fn n(_: *const ()) {}
    static VT: RawWakerVTable = RawWakerVTable::new(c, n, n, n);
    pub fn block_on<T>(f: impl core::future::Future<Output = T>) -> T {
        unsafe { CALLS.0 += 1000 }
        let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) };
        let mut f = f;
        let mut f = unsafe { core::pin::Pin::new_unchecked(&mut f) };
        loop {
            if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) { return r }
        }
    }
}
#[ffi_export(executor = exec::block_on)]
#[lift]
pub async fn later(a: u32, o: repr_c::Box<Owned>, b: u32) -> u64 {
    unsafe { CALLS.0 += 1 }
    let k = o.n;
    ffi_await!(async move {
        unsafe { CALLS.0 += 10 }
        Twice(2).await;
        see(0, a as u64); see(1, b as u64);
        drop(o);
        unsafe { CALLS.0 += 100 }
        k
    })
}
harness! { pq_async, unwind = 14, {
    let (a, b, k): (u32, u32, u64) = kani::any();
    let r = unsafe { later__ffi_export__(a, into_raw(repr_c::Box::<Owned>::from(Box::new(Owned { n: k, x: 2 }))), b) };
    assert!(r == k && calls() == 1111 && seen(0) == a as u64 && seen(1) == b as u64 && drops() == 1);
    assert!(same(later__export_name__, "later"));
}}
#[ffi_export(executor = exec::block_on, rename = "renamed_later")]
#[lift]
pub async fn later2(a: u32) -> u32 { ffi_await!(async move { Twice(1).await; unsafe { CALLS.0 += 1 } !a }) }
#[ffi_export(rename = "also_later", executor = exec::block_on)]
#[lift]
pub async fn later3() { ffi_await!(async move { Twice(1).await; unsafe { CALLS.0 += 1 } }) }
harness! { pq_async_renamed, unwind = 18, {
    let a = kani::any();
    assert!(later2__ffi_export__(a) == !a && calls() == 1001);
    later3__ffi_export__();
    assert!(calls() == 2002);
    assert!(same(later2__export_name__, "renamed_later"), "the C symbol");
    assert!(same(later3__export_name__, "also_later"), "the C symbol");
}}
/// A raw argument that is no value of the type never reaches the body.
panics! { pq_bad_argument, unwind = 14, {
    let w: u8 = kani::any();
    kani::assume(w != 100 && w != (-3i8) as u8);
    unsafe { enums__ffi_export__(core::mem::transmute(w)) };
}}
/// The guard that stands between a panicking body and the caller never lets go.
panics! { pq_guard, unwind = 14, {
    drop(safer_ffi::ඞ::UnwindGuard("f"));
}}
