//! T02: the executor adapters (spawn, spawn_blocking, block_on, enter) over any executor that keeps its contract.
//! The executor is a stand-in whose behaviour is arbitrary: it may run what it is handed at once, when its handle is polled,
//! only partly, or not at all.  Oracle: ghost counters of runs, polls and destructions.
use crate::common::TAG;
use core::future::Future;
use core::pin::Pin;
use core::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use safer_ffi::dyn_traits::futures::*;
use safer_ffi::dyn_traits::{DropGlue, ImplDropGlue};
use safer_ffi::prelude::*;

/// A harness in which the arguments of diagnostics are not turned into formatting functions (each is a candidate target of every
/// call through a function pointer, and none is called but to print a message).
macro_rules! quiet { ($what:ident: $n:ident, unwind = $u:literal, $b:block) => { $what! {
    #[kani::stub(core::fmt::rt::Argument::new_debug, core::fmt::rt::Argument::new_debug_noop)]
    #[kani::stub(core::fmt::rt::Argument::new_display, core::fmt::rt::Argument::new_debug_noop)]
    $n, unwind = $u, $b
} } }

static mut DROPS: (i64, u64) = (0, TAG);
static mut RUNS: (i64, u64) = (0, TAG);
static mut ENTERED: (i64, u64) = (0, TAG);
static mut EXECUTORS: (i64, u64) = (0, TAG);
static mut RESULTS: (i64, u64) = (0, TAG);
fn drops() -> i64 { unsafe { DROPS.0 } }
fn runs() -> i64 { unsafe { RUNS.0 } }

unsafe fn w_clone(_: *const ()) -> RawWaker { RawWaker::new(core::ptr::null(), &VT) }
unsafe fn w_nop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_nop, w_nop, w_nop);
fn poll<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) };
    f.poll(&mut Context::from_waker(&w))
}
fn poll_ffi(v: &mut VirtualPtr<dyn '_ + FfiFuture>) -> PollFuture {
    let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) };
    Pin::new(v).dyn_poll(&mut Context::from_waker(&w))
}
fn poll_ffi_send(v: &mut VirtualPtr<dyn '_ + Send + FfiFuture>) -> PollFuture {
    let w = unsafe { Waker::from_raw(RawWaker::new(core::ptr::null(), &VT)) };
    Pin::new(v).dyn_poll(&mut Context::from_waker(&w))
}
/// A result that owns something.
#[derive(PartialEq)]
pub struct Res(u64);
impl Drop for Res { fn drop(&mut self) { unsafe { RESULTS.0 -= 1 } } }
fn res(x: u64) -> Res { unsafe { RESULTS.0 += 1 } Res(x) }

/// Work: pending a few times, then a result.
struct Work { left: u8, x: u64, done: bool }
impl Drop for Work { fn drop(&mut self) { unsafe { DROPS.0 += 1 } } }
impl Future for Work {
    type Output = Res;
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Res> {
        assert!(!self.done, "not polled after completion");
        if self.left == 0 { self.done = true; unsafe { RUNS.0 += 1 } return Poll::Ready(res(self.x)) }
        self.left -= 1;
        Poll::Pending
    }
}
struct Ready;
impl Future for Ready { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { Poll::Ready(()) } }
struct Never;
impl Future for Never { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { Poll::Pending } }
static mut QUEUE: (Option<repr_c::Box<dyn 'static + Send + FnMut()>>, u64) = (None, TAG);
struct Call;
impl Future for Call {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { unsafe { QUEUE.0.take().unwrap().call() } Poll::Ready(()) }
}

static mut STEPS: (u8, u64) = (0, TAG);       // polls granted by block_on
/// The executors: one per behaviour.
macro_rules! executor { ($E:ident { $($m:tt)* }) => {
    struct $E;
    impl Clone for $E { fn clone(&self) -> $E { unsafe { EXECUTORS.0 += 1 } $E } }
    impl Drop for $E { fn drop(&mut self) { unsafe { EXECUTORS.0 -= 1 } } }
    impl $E { fn new() -> VirtualPtr<dyn 'static + Send + Sync + FfiFutureExecutor> { unsafe { EXECUTORS.0 += 1 } Box::new($E).into() } }
    impl FfiFutureExecutor for $E { executor! { @ [] $($m)* } }
};
    (@ [$($done:tt)*] spawn |$f:ident| $b:block $($m:tt)*) => { executor! { @ [$($done)*
        fn dyn_spawn(&self, #[allow(unused_mut)] mut $f: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> { $b }
        fn dyn_spawn_blocking(&self, _: repr_c::Box<dyn 'static + Send + FnMut()>) -> VirtualPtr<dyn 'static + Send + FfiFuture> { unreachable!() }
        fn dyn_block_on(&self, _: VirtualPtr<dyn '_ + FfiFuture>) { unreachable!() }
        ] $($m)* } };
    (@ [$($done:tt)*] blocking |$f:ident| $b:block $($m:tt)*) => { executor! { @ [$($done)*
        fn dyn_spawn_blocking(&self, #[allow(unused_mut)] mut $f: repr_c::Box<dyn 'static + Send + FnMut()>) -> VirtualPtr<dyn 'static + Send + FfiFuture> { $b }
        fn dyn_spawn(&self, _: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> { unreachable!() }
        fn dyn_block_on(&self, _: VirtualPtr<dyn '_ + FfiFuture>) { unreachable!() }
        ] $($m)* } };
    (@ [$($done:tt)*] block_on |$f:ident| $b:block $($m:tt)*) => { executor! { @ [$($done)*
        fn dyn_block_on(&self, mut $f: VirtualPtr<dyn '_ + FfiFuture>) { $b }
        fn dyn_spawn_blocking(&self, _: repr_c::Box<dyn 'static + Send + FnMut()>) -> VirtualPtr<dyn 'static + Send + FfiFuture> { unreachable!() }
        fn dyn_spawn(&self, _: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> { unreachable!() }
        fn dyn_enter(&self) -> VirtualPtr<dyn '_ + DropGlue> {
            struct G;
            impl Drop for G { fn drop(&mut self) { unsafe { ENTERED.0 -= 1 } } }
            unsafe { ENTERED.0 += 1 }
            Box::new(ImplDropGlue(G)).into()
        }
        ] $($m)* } };
    (@ [$($done:tt)*]) => { $($done)* };
}
executor! { Eager { spawn |f| { while poll_ffi_send(&mut f) == PollFuture::Pending {} Box::pin(Ready).into() } } }
executor! { Lazy { spawn |f| { f } } }
executor! { Lost { spawn |f| { drop(f); Box::pin(Ready).into() } } }
executor! { LostLate { spawn |f| { drop(f); Box::pin(Never).into() } } }
executor! { EagerB { blocking |f| { f.call(); Box::pin(Ready).into() } } }
executor! { TwiceB { blocking |f| { f.call(); f.call(); Box::pin(Ready).into() } } }
executor! { LazyB { blocking |f| { unsafe { QUEUE.0 = Some(f) } Box::pin(Call).into() } } }
executor! { LostB { blocking |f| { drop(f); Box::pin(Ready).into() } } }
executor! { LostLateB { blocking |f| { drop(f); Box::pin(Never).into() } } }
executor! { Blocking { block_on |f| {
    let mut n = unsafe { STEPS.0 };
    while n > 0 && poll_ffi(&mut f) == PollFuture::Pending { n -= 1 }
} } }
fn work(left: u8) -> (u64, Work) { let x = kani::any(); (x, Work { left, x, done: false }) }

/// Whatever the future does, its output comes back; nothing is lost or destroyed twice.
quiet! { harness: pq_block_on, unwind = 6, {
    unsafe { STEPS.0 = 4 }
    let left: u8 = kani::any();
    kani::assume(left < 4);
    let (x, w) = work(left);
    let e = Blocking::new();
    let r = e.block_on(w);
    assert!(r.0 == x && runs() == 1 && drops() == 1 && unsafe { RESULTS.0 } == 1);
    drop(r);
    drop(e);
    assert!(unsafe { RESULTS.0 } == 0 && unsafe { EXECUTORS.0 } == 0 && drops() == 1);
}}
/// An executor that gives up is noticed.
quiet! { panics: pq_block_on_lost, unwind = 6, {
    unsafe { STEPS.0 = kani::any_where(|n| *n < 3) }
    let (_, w) = work(3);
    core::mem::forget(Blocking::new().block_on(w));
}}
macro_rules! await_spawned { ($E:ident, $left:literal, $eager:literal) => {
    let (x, w) = work($left);
    let e = $E::new();
    {
        let f = e.spawn(w);
        let mut f = core::pin::pin!(f);
        assert!(runs() == $eager as i64);
        let mut n = 0;
        let r = loop {
            if let Poll::Ready(r) = poll(f.as_mut()) { break r }
            n += 1;
        };
        assert!(n == if $eager { 0 } else { $left }, "pending exactly as long as the task is");
        assert!(r.0 == x && runs() == 1 && unsafe { RESULTS.0 } == 1 && drops() == 1);
    }
    drop(e);
    assert!(drops() == 1 && unsafe { RESULTS.0 } == 0 && unsafe { EXECUTORS.0 } == 0);
}}
quiet! { harness: pq_spawn_eager_0, unwind = 4, { await_spawned! { Eager, 0, true } }}
quiet! { harness: pt_spawn_eager_2, unwind = 6, { await_spawned! { Eager, 2, true } }}
quiet! { harness: pq_spawn_lazy_0, unwind = 4, { await_spawned! { Lazy, 0, false } }}
quiet! { harness: pt_spawn_lazy_2, unwind = 6, { await_spawned! { Lazy, 2, false } }}
/// Dropping the handle.
quiet! { harness: pq_spawn_dropped, unwind = 6, {
    let (_, w) = work(1);
    drop(Lazy::new().spawn(w));
    assert!(drops() == 1 && unsafe { RESULTS.0 } == 0 && runs() == 0);
}}
quiet! { harness: pq_spawn_dropped_late, unwind = 6, {
    let (_, w) = work(1);
    drop(Eager::new().spawn(w));
    assert!(drops() == 1 && unsafe { RESULTS.0 } == 0 && runs() == 1);
}}
/// An executor that drops the task is noticed, not answered with a result.
quiet! { panics: pq_spawn_lost, unwind = 6, {
    let (_, w) = work(0);
    let e = Lost::new();
    let f = e.spawn(w);
    let mut f = core::pin::pin!(f);
    core::mem::forget(poll(f.as_mut()));
}}
quiet! { harness: pq_spawn_never, unwind = 6, {
    let (_, w) = work(0);
    let e = LostLate::new();
    let f = e.spawn(w);
    let mut f = core::pin::pin!(f);
    assert!(poll(f.as_mut()).is_pending() && runs() == 0 && drops() == 1);
}}
/// Blocking closures.
macro_rules! await_blocking { ($E:ident, |$r:ident| $check:expr) => {
    let x: u64 = kani::any();
    struct Tok;
    impl Drop for Tok { fn drop(&mut self) { unsafe { DROPS.0 += 1 } } }
    let t = Tok;
    let e = $E::new();
    {
        let f = e.spawn_blocking(move || { let _t = &t; unsafe { RUNS.0 += 1 } res(x) });
        let mut f = core::pin::pin!(f);
        let $r = poll(f.as_mut());
        let ok: Option<u64> = $check;
        assert!(ok.is_none() || ok == Some(x), "the result of the closure");
        assert!(runs() == ok.is_some() as i64);
    }
    drop(e);
    assert!(drops() == 1 && unsafe { RESULTS.0 } == 0 && unsafe { EXECUTORS.0 } == 0);
}}
quiet! { harness: pq_blocking_eager, unwind = 4, { await_blocking!(EagerB, |r| match r { Poll::Ready(Ok(r)) => Some(r.0), _ => { assert!(false); None } }); }}
quiet! { harness: pq_blocking_lazy, unwind = 4, { await_blocking!(LazyB, |r| match r { Poll::Ready(Ok(r)) => Some(r.0), _ => { assert!(false); None } }); }}
quiet! { harness: pq_blocking_lost, unwind = 4, { await_blocking!(LostB, |r| match r { Poll::Ready(Err(_)) => None, _ => { assert!(false); None } }); }}
quiet! { harness: pq_blocking_never, unwind = 4, { await_blocking!(LostLateB, |r| match r { Poll::Pending => None, _ => { assert!(false); None } }); }}
quiet! { panics: pq_blocking_twice, unwind = 4, {
    core::mem::forget(TwiceB::new().spawn_blocking(|| ()));
}}
/// Entering, and cloned executors.
quiet! { harness: pq_enter, unwind = 4, {
    let e = Blocking::new();
    {
        let g = e.enter();
        assert!(unsafe { ENTERED.0 } == 1);
        drop(g);
        assert!(unsafe { ENTERED.0 } == 0);
    }
    let c = e.clone();
    assert!(unsafe { EXECUTORS.0 } == 2);
    drop(e);
    unsafe { STEPS.0 = 2 }
    let (x, w) = work(1);
    assert!(c.block_on(w).0 == x);
    drop(c);
    assert!(unsafe { EXECUTORS.0 } == 0);
}}
