//! A panic in the body of an exported function never unwinds into the caller: the process is ended, naming the function.
use safer_ffi::prelude::*;
use std::panic::catch_unwind;

pub struct Bomb;
impl Drop for Bomb { fn drop(&mut self) { panic!("in a destructor") } }
#[derive_ReprC]
#[repr(C)]
pub struct Armed { n: u32 }
impl Drop for Armed { fn drop(&mut self) { if self.n == 1 { panic!("in the destructor of an argument") } } }

#[ffi_export] fn vn_plain(n: u32) -> u32 { if n == 1 { panic!("in the body") } n + 1 }
#[ffi_export] fn vn_unit() { panic!("no argument, no result") }
#[ffi_export(rename = "vn_other_name")] fn vn_renamed(n: u32) -> u32 { if n == 1 { panic!("renamed") } n + 2 }
#[ffi_export] fn vn_owning(b: repr_c::Box<u32>, v: repr_c::Vec<u8>) -> repr_c::Box<u32> { if *b == 1 { panic!("holding {}", v.len()) } b }
#[ffi_export] fn vn_armed(_a: Armed) -> u32 { 5 }
#[ffi_export] fn vn_local(n: u32) -> u32 { let _b = Bomb; n }
#[ffi_export] fn vn_borrowed(n: &u32, s: char_p::Ref<'_>) -> usize { if *n == 1 { panic!("{s}") } s.to_bytes().len() }
#[ffi_export] fn vn_nested(n: u32) -> u32 { unsafe { sys::vn_plain(n) } }
#[ffi_export(executor = block_on)] async fn vn_async(n: u32) -> u32 { ffi_await!(async move { if n == 1 { panic!("in an async body") } n + 3 }) }
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::*;
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) };
    let mut f = Box::pin(f);
    loop { if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&w)) { return r } }
}
mod sys {
    extern "C-unwind" {
        pub fn vn_plain(n: u32) -> u32;
        pub fn vn_unit();
        pub fn vn_other_name(n: u32) -> u32;
        pub fn vn_owning(b: *mut u32, v: super::RawVec) -> *mut u32;
        pub fn vn_armed(n: u32) -> u32;
        pub fn vn_local(n: u32) -> u32;
        pub fn vn_borrowed(n: *const u32, s: *const u8) -> usize;
        pub fn vn_nested(n: u32) -> u32;
        pub fn vn_async(n: u32) -> u32;
    }
}
#[repr(C)]
pub struct RawVec { ptr: *mut u8, len: usize, cap: usize }
fn raw_vec() -> RawVec { let mut v = std::mem::ManuallyDrop::new(vec![1u8, 2, 3]); RawVec { ptr: v.as_mut_ptr(), len: 3, cap: v.capacity() } }
fn caught<R>(f: impl FnOnce() -> R + std::panic::UnwindSafe) { if catch_unwind(f).is_err() { println!("CAUGHT") } }

pub const CASES: &[(&str, fn(), Option<&str>)] = &[
    ("body", || caught(|| unsafe { sys::vn_plain(1) }), Some("vn_plain")),
    ("no_argument", || caught(|| unsafe { sys::vn_unit() }), Some("vn_unit")),
    ("renamed", || caught(|| unsafe { sys::vn_other_name(1) }), Some("vn_other_name")),
    ("owned_arguments", || caught(|| unsafe { sys::vn_owning(Box::into_raw(Box::new(1)), raw_vec()) }), Some("vn_owning")),
    ("destructor_of_argument", || caught(|| unsafe { sys::vn_armed(1) }), Some("vn_armed")),
    ("destructor_of_local", || caught(|| unsafe { sys::vn_local(1) }), Some("vn_local")),
    ("borrowed", || caught(|| unsafe { sys::vn_borrowed(&1, b"text\0".as_ptr()) }), Some("vn_borrowed")),
    ("nested", || caught(|| unsafe { sys::vn_nested(1) }), Some("vn_plain")),
    ("async_body", || caught(|| unsafe { sys::vn_async(1) }), Some("vn_async")),
    ("second_call", || { assert!(unsafe { sys::vn_plain(4) } == 5); caught(|| unsafe { sys::vn_plain(1) }) }, Some("vn_plain")),
    ("in_a_thread", || { std::thread::spawn(|| unsafe { sys::vn_plain(1) }).join().ok(); println!("CAUGHT") }, Some("vn_plain")),
    ("while_unwinding", || caught(|| { struct D; impl Drop for D { fn drop(&mut self) { assert!(unsafe { sys::vn_plain(6) } == 7); } } let _d = D; panic!("the caller's own panic: vn_fine") }), None),
    ("no_panic", || unsafe {
        for n in 2..200 {
            assert!(sys::vn_plain(n) == n + 1 && sys::vn_other_name(n) == n + 2 && sys::vn_async(n) == n + 3 && sys::vn_armed(n) == 5 && sys::vn_nested(n) == n + 1);
            let b = sys::vn_owning(Box::into_raw(Box::new(n)), raw_vec());
            assert!(*Box::from_raw(b) == n && sys::vn_borrowed(&n, b"text\0".as_ptr()) == 4);
        }
    }, None),
];
