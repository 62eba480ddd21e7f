//! F01: futures and executors across FFI.  Oracle: a wrapped future with ghost counters (polls, destruction) and a waker with
//! ghost counters (wake, clone, drop).  T02: an executor of our own, whose behaviour is arbitrary within its contract.
use crate::common::TAG;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use safer_ffi::dyn_traits::futures::*;
use safer_ffi::prelude::*;

static mut POLLS: (i64, u64) = (0, TAG);
static mut DROPS: (i64, u64) = (0, TAG);
fn polls() -> i64 { unsafe { POLLS.0 } }
fn drops() -> i64 { unsafe { DROPS.0 } }

// the caller's waker
static mut WAKES: (i64, u64) = (0, TAG);
static mut HELD: (i64, u64) = (0, TAG);       // wakers in existence
const MARK: *const () = 0x70 as *const ();
unsafe fn w_clone(p: *const ()) -> RawWaker { assert!(p == MARK); HELD.0 += 1; RawWaker::new(p, &VT) }
unsafe fn w_wake(p: *const ()) { assert!(p == MARK); HELD.0 -= 1; WAKES.0 += 1; }
unsafe fn w_wake_by_ref(p: *const ()) { assert!(p == MARK); WAKES.0 += 1; }
unsafe fn w_drop(p: *const ()) { assert!(p == MARK); HELD.0 -= 1; }
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake_by_ref, w_drop);
fn wakes() -> i64 { unsafe { WAKES.0 } }
fn held() -> i64 { unsafe { HELD.0 } }
pub fn waker() -> Waker { unsafe { HELD.0 += 1; Waker::from_raw(RawWaker::new(MARK, &VT)) } }

/// The wrapped future: pending `left` more times, then ready; wakes and keeps wakers as told.
pub struct Fut { left: u8, wake: bool, kept: Option<Waker>, keep: bool, done: bool, pinned_at: usize }
impl Fut { fn new(left: u8, wake: bool, keep: bool) -> Fut { Fut { left, wake, kept: None, keep, done: false, pinned_at: 0 } } }
impl Drop for Fut { fn drop(&mut self) { unsafe { DROPS.0 += 1 } } }
impl Future for Fut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        unsafe { POLLS.0 += 1 }
        assert!(!self.done, "not polled again after it was ready");
        let at = &*self as *const Fut as usize;
        assert!(self.pinned_at == 0 || self.pinned_at == at, "never moved");
        self.pinned_at = at;
        if self.wake { cx.waker().wake_by_ref() }
        if self.keep { self.kept = Some(cx.waker().clone()) }
        if self.left == 0 { self.done = true; return Poll::Ready(()) }
        self.left -= 1;
        Poll::Pending
    }
}
fn poll_once(v: &mut VirtualPtr<dyn '_ + FfiFuture>) -> PollFuture {
    let w = waker();
    let r = Pin::new(v).dyn_poll(&mut Context::from_waker(&w));
    drop(w);
    r
}
/// One poll in, one poll out; pending and ready kept apart; the caller's waker passed on.
harness! { pq_poll, unwind = 4, {
    let (left, wake): (u8, bool) = kani::any();
    let mut v: VirtualPtr<dyn '_ + FfiFuture> = Box::pin(Fut::new(left, wake, false)).into();
    assert!(polls() == 0 && drops() == 0);
    let r = poll_once(&mut v);
    assert!(polls() == 1 && (r == PollFuture::Pending) == (left > 0) && (r == PollFuture::Completed) == (left == 0));
    assert!(wakes() == wake as i64 && held() == 0);
    if left > 0 && kani::any() {
        let r = poll_once(&mut v);
        assert!(polls() == 2 && (r == PollFuture::Pending) == (left > 1) && wakes() == 2 * wake as i64 && held() == 0);
    }
    assert!(drops() == 0);
    drop(v);
    assert!(drops() == 1 && held() == 0, "dropped once, at any point");
}}
/// A waker that is kept wakes the caller's, later.
harness! { pq_waker_kept, unwind = 4, {
    let left: u8 = kani::any();
    let mut v: VirtualPtr<dyn '_ + FfiFuture> = Box::pin(Fut::new(left, false, true)).into();
    poll_once(&mut v);
    assert!(wakes() == 0 && held() == 1, "kept");
    if left > 0 { poll_once(&mut v); }
    assert!(held() == 1);
    drop(v);
    assert!(held() == 0 && drops() == 1 && wakes() == 0);
}}
/// Every kind of pinned pointer.
harness! { pq_borrowed, unwind = 4, {
    let left: u8 = kani::any();
    let mut f = Fut::new(left, true, false);
    {
        let mut v: VirtualPtr<dyn '_ + FfiFuture> = unsafe { Pin::new_unchecked(&mut f) }.into();
        let r = poll_once(&mut v);
        assert!((r == PollFuture::Completed) == (left == 0) && polls() == 1 && wakes() == 1);
    }
    assert!(drops() == 0);
    assert!(f.done == (left == 0) && f.left == left.saturating_sub(1), "it was that very future");
    drop(f);
    assert!(drops() == 1);
}}
/// Through the C layout.
harness! { pq_raw, unwind = 4, {
    let left: u8 = kani::any();
    let v: VirtualPtr<dyn 'static + Send + FfiFuture> = Box::pin(Fut::new(left, true, false)).into();
    let raw = unsafe { safer_ffi::layout::into_raw(v) };
    assert!(drops() == 0 && polls() == 0);
    let mut v = unsafe { safer_ffi::layout::from_raw::<VirtualPtr<dyn 'static + Send + FfiFuture>>(raw) }.unwrap();
    let w = waker();
    let r = Pin::new(&mut v).dyn_poll(&mut Context::from_waker(&w));
    assert!((r == PollFuture::Pending) == (left > 0) && polls() == 1 && wakes() == 1);
    drop(v);
    assert!(drops() == 1);
}}
/// The numbers C sees.
harness! { pq_codes, unwind = 4, {
    assert!(PollFuture::Completed as i8 == 0 && PollFuture::Pending as i8 == -1);
    let w: i8 = kani::any();
    let r = unsafe { safer_ffi::layout::from_raw::<PollFuture>(core::mem::transmute(w)) };
    assert!(r == match w { 0 => Some(PollFuture::Completed), -1 => Some(PollFuture::Pending), _ => None });
}}
/// And back to a Rust future.
fn poll_rust<F: Future>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = waker();
    f.poll(&mut Context::from_waker(&w))
}
macro_rules! into_future { ($n:ident, [$($Send:tt)*]) => {
    harness! { $n, unwind = 4, {
        let (left, wake): (u8, bool) = kani::any();
        let v: VirtualPtr<dyn '_ $($Send)* + FfiFuture> = Box::pin(Fut::new(left, wake, false)).into();
        {
            let mut f = v.into_future();
            let mut f = unsafe { Pin::new_unchecked(&mut f) };
            assert!(polls() == 0);
            let r = poll_rust(f.as_mut());
            assert!(polls() == 1 && r.is_ready() == (left == 0) && wakes() == wake as i64 && held() == 0);
            if left > 0 && kani::any() {
                let r = poll_rust(f.as_mut());
                assert!(polls() == 2 && r.is_ready() == (left == 1) && wakes() == 2 * wake as i64);
            }
        }
        assert!(drops() == 1 && held() == 0);
    }}
}}
into_future! { pq_into_future, [] }
into_future! { pq_into_future_send, [+ Send] }
/// A future made by someone else (C): polled with the context it is given, released once.
static mut CX: (usize, u64) = (0, TAG);
static mut CODE: (i8, u64) = (0, TAG);
unsafe extern "C" fn c_release(p: safer_ffi::ptr::NonNullOwned<safer_ffi::dyn_traits::ErasedTy>) { assert!(p.as_ptr() as usize == 0x40); DROPS.0 += 1; }
unsafe extern "C" fn c_poll(p: safer_ffi::ptr::NonNullMut<safer_ffi::dyn_traits::ErasedTy>, cx: safer_ffi::layout::CLayoutOf<&'static mut Context<'static>>) -> safer_ffi::layout::CLayoutOf<PollFuture> {
    assert!(p.as_ptr() as usize == 0x40 && core::mem::transmute_copy::<_, usize>(&cx) == CX.0);
    POLLS.0 += 1;
    core::mem::transmute(CODE.0)
}
harness! { pq_c_future, unwind = 4, {
    unsafe {
        // data, release, poll: the fields of the C layout, in order
        let raw: (usize, unsafe extern "C" fn(safer_ffi::ptr::NonNullOwned<safer_ffi::dyn_traits::ErasedTy>),
                  unsafe extern "C" fn(safer_ffi::ptr::NonNullMut<safer_ffi::dyn_traits::ErasedTy>, safer_ffi::layout::CLayoutOf<&'static mut Context<'static>>) -> safer_ffi::layout::CLayoutOf<PollFuture>)
            = (0x40, c_release, c_poll);
        #[repr(C)] struct R<A, B, C>(A, B, C);
        let raw = R(raw.0, raw.1, raw.2);
        assert!(core::mem::size_of_val(&raw) == core::mem::size_of::<VirtualPtr<dyn '_ + FfiFuture>>());
        let mut v = core::mem::transmute_copy::<_, VirtualPtr<dyn '_ + FfiFuture>>(&raw);
        CODE.0 = if kani::any() { 0 } else { -1 };
        let w = waker();
        let mut cx = Context::from_waker(&w);
        CX.0 = &mut cx as *mut _ as usize;
        let r = Pin::new(&mut v).dyn_poll(&mut cx);
        assert!(polls() == 1 && (r == PollFuture::Completed) == (CODE.0 == 0));
        drop(v);
        assert!(drops() == 1 && polls() == 1);
    }
}}

// The functions for C to wake a task.
type RawCx = safer_ffi::layout::CLayoutOf<&'static Context<'static>>;
type RawWakerFn = safer_ffi::layout::CLayoutOf<repr_c::Arc<dyn 'static + Send + Sync + Fn()>>;
pub trait Sig { type A; type R; }
pub trait Exported: Sig { const SYMBOL: &'static str; fn call(a: Self::A) -> Self::R; }
#[allow(non_camel_case_types)] pub struct rust_future_task_context_wake;
impl Sig for rust_future_task_context_wake { type A = RawCx; type R = safer_ffi::layout::CLayoutOf<()>; }
#[allow(non_camel_case_types)] pub struct rust_future_task_context_get_waker;
impl Sig for rust_future_task_context_get_waker { type A = RawCx; type R = RawWakerFn; }
mod helpers {
    use lift::ffi_export;
    safer_ffi::ffi_export_future_helpers!();
}
harness! { pq_helpers, unwind = 4, {
    let w = waker();
    let cx = Context::from_waker(&w);
    let raw = || unsafe { core::mem::transmute::<&Context<'_>, RawCx>(&cx) };
    rust_future_task_context_wake::call(raw());
    assert!(wakes() == 1 && held() == 1, "wakes the task, once");
    let a = unsafe { safer_ffi::layout::from_raw::<repr_c::Arc<dyn 'static + Send + Sync + Fn()>>(rust_future_task_context_get_waker::call(raw())) }.unwrap();
    assert!(wakes() == 1 && held() == 2, "a waker of its own");
    drop(w);
    assert!(held() == 1);
    a.call();
    assert!(wakes() == 2 && held() == 1);
    let b = a.clone();
    drop(a);
    b.call();
    assert!(wakes() == 3 && held() == 1);
    drop(b);
    assert!(held() == 0 && wakes() == 3);
}}
