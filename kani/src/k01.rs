//! K01: closures.  Oracle: ghost counters of what is called, with what, and of the destruction of the captured environment;
//! the allocator's bookkeeping (double free, leak) for its memory.
use crate::common::TAG;
use safer_ffi::closure::*;
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, ReprC};
use safer_ffi::prelude::*;
use std::sync::Arc;
use core::ffi::c_void;
use core::ptr::NonNull;

static mut DROPS: (i64, u64) = (0, TAG);
static mut CALLS: (i64, u64) = (0, TAG);
fn drops() -> i64 { unsafe { DROPS.0 } }
fn calls() -> i64 { unsafe { CALLS.0 } }
fn called() { unsafe { CALLS.0 += 1 } }
/// A function pointer of the C layout, at the type C calls it with (CBMC wants the types to agree).
unsafe fn c_fn<F, G>(f: Option<F>) -> G { core::mem::transmute_copy(&f.unwrap()) }
unsafe fn env_of<T>(p: *mut T) -> NonNull<c_void> { NonNull::new(p as *mut c_void).unwrap() }
/// What the closures capture.
#[repr(align(16))]
pub struct Env(u64);
impl Drop for Env { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }

type All = (u8, u16, u32, u64, i8, i16, i32, i64, bool);
macro_rules! first { ($all:ident;) => { () }; ($all:ident; $($i:tt)*) => { ($($all.$i,)*) }; }
macro_rules! arity { ($n:literal $b:ident $a:ident $r:ident $cb:ident $ca:ident: $Box:ident $Arc:ident $Ref:ident ($($i:tt $x:ident: $X:ty),*)) => {
    /// Boxed.
    harness! { $b, unwind = 4, {
        let args: All = kani::any();
        let (id, ret): (u64, u64) = kani::any();
        let env = Env(id);
        let mut state = 0u64;
        let f = move |$($x: $X),*| -> u64 {
            called();
            let e = &env;
            assert!(e.0 == id, "the captured environment");
            assert!(($($x,)*) == first!(args; $($i)*), "the arguments, in order");
            state += 1;
            ret ^ state
        };
        let mut b: repr_c::Box<dyn Send + FnMut($($X),*) -> u64> = if kani::any() { Box::new(f).into() } else { $Box::new(Box::new(f)) };
        assert!(calls() == 0 && drops() == 0);
        assert!(b.call($(args.$i),*) == ret ^ 1 && calls() == 1 && drops() == 0, "called once, result returned");
        assert!(b.call($(args.$i),*) == ret ^ 2 && calls() == 2 && drops() == 0, "state is kept");
        let b = unsafe { from_raw::<$Box<u64, $($X),*>>(into_raw(b)) }.unwrap();
        assert!(drops() == 0 && calls() == 2);
        if kani::any() {
            drop(b);
        } else {
            // as C does it
            let r = unsafe { into_raw(b) };
            let got = unsafe { (c_fn::<_, unsafe extern "C" fn(NonNull<c_void>, $($X),*) -> u64>(r.call))(env_of(r.env_ptr), $(args.$i),*) };
            assert!(got == ret ^ 3 && calls() == 3 && drops() == 0);
            unsafe { (c_fn::<_, unsafe extern "C" fn(NonNull<c_void>)>(r.free))(env_of(r.env_ptr)) };
        }
        assert!(drops() == 1, "destroyed once");
    }}
    /// Shared.
    harness! { $a, unwind = 4, {
        let args: All = kani::any();
        let (id, ret): (u64, u64) = kani::any();
        let env = Env(id);
        let f = Arc::new(move |$($x: $X),*| -> u64 {
            called();
            let e = &env;
            assert!(e.0 == id, "the captured environment");
            assert!(($($x,)*) == first!(args; $($i)*), "the arguments, in order");
            ret
        });
        let mine = Arc::clone(&f);
        let a: repr_c::Arc<dyn Send + Sync + Fn($($X),*) -> u64> = if kani::any() { f.into() } else { $Arc::new(f) };
        assert!(Arc::strong_count(&mine) == 2, "takes over the reference it is given");
        assert!(a.call($(args.$i),*) == ret && calls() == 1);
        let c = a.clone();
        assert!(Arc::strong_count(&mine) == 3, "a clone adds exactly one reference");
        assert!(c.call($(args.$i),*) == ret && calls() == 2);
        drop(a);
        assert!(Arc::strong_count(&mine) == 2 && drops() == 0);
        let r = unsafe { into_raw(c) };
        assert!(Arc::strong_count(&mine) == 2);
        assert!(unsafe { (c_fn::<_, unsafe extern "C" fn(NonNull<c_void>, $($X),*) -> u64>(r.call))(env_of(r.env_ptr), $(args.$i),*) } == ret && calls() == 3);
        unsafe { (c_fn::<_, unsafe extern "C" fn(NonNull<c_void>)>(r.retain))(env_of(r.env_ptr)) };
        assert!(Arc::strong_count(&mine) == 3);
        unsafe { (c_fn::<_, unsafe extern "C" fn(NonNull<c_void>)>(r.release))(env_of(r.env_ptr)) };
        assert!(Arc::strong_count(&mine) == 2);
        let c = unsafe { from_raw_unchecked::<$Arc<u64, $($X),*>>(r) };
        drop(mine);
        assert!(drops() == 0, "still held by the closure object");
        assert!(c.call($(args.$i),*) == ret && calls() == 4);
        drop(c);
        assert!(drops() == 1, "destroyed once, by the last one");
    }}
    /// Borrowed.
    harness! { $r, unwind = 4, {
        let args: All = kani::any();
        let (id, ret): (u64, u64) = kani::any();
        let mut state = 0u64;
        {
            let env = Env(id);
            let mut f = |$($x: $X),*| -> u64 {
                called();
                let e = &env;
            assert!(e.0 == id, "the captured environment");
                assert!(($($x,)*) == first!(args; $($i)*), "the arguments, in order");
                state += 1;
                ret
            };
            {
                let mut b: $Ref<'_, u64, $($X),*> = $Ref::new(&mut f);
                assert!(b.call($(args.$i),*) == ret && calls() == 1);
                assert!(b.call($(args.$i),*) == ret && calls() == 2);
                let r = unsafe { into_raw(b) };
                assert!(unsafe { (c_fn::<_, unsafe extern "C" fn(NonNull<c_void>, $($X),*) -> u64>(r.call))(env_of(r.env_ptr), $(args.$i),*) } == ret && calls() == 3);
                let mut b = unsafe { from_raw::<$Ref<'_, u64, $($X),*>>(r) }.unwrap();
                assert!(b.call($(args.$i),*) == ret && calls() == 4);
            }
            assert!(drops() == 0, "never destroyed by the borrow");
            f($(args.$i),*);
        }
        assert!(drops() == 1 && state == 5);
        fn plain($(_: $X),*) -> u64 { called(); 77 }
        let mut p = move |$($x: $X),*| -> u64 { plain($($x),*) ^ id };
        let mut b: $Ref<'_, u64, $($X),*> = (&mut p).into();
        assert!(b.call($(args.$i),*) == 77 ^ id && calls() == 6);
    }}
    /// A boxed closure made by someone else (C): what it is handed, and when.
    harness! { $cb, unwind = 4, {
        static mut ARGS: (Option<All>, u64) = (None, TAG);
        static mut RET: (u64, u64) = (0, TAG);
        static mut AT: (usize, u64) = (0, TAG);
        static mut FREED: (i64, u64) = (0, TAG);
        unsafe extern "C" fn c_call(env: NonNull<c_void>, $($x: $X),*) -> u64 {
            called();
            let all = ARGS.0.unwrap();
            assert!(env.as_ptr() as usize == AT.0, "the environment pointer");
            assert!(($($x,)*) == first!(all; $($i)*), "the arguments, in order");
            RET.0
        }
        unsafe extern "C" fn c_free(env: NonNull<c_void>) {
            assert!(env.as_ptr() as usize == AT.0, "the environment pointer");
            FREED.0 += 1;
        }
        unsafe {
            ARGS.0 = Some(kani::any());
            RET.0 = kani::any();
            AT.0 = kani::any();
            kani::assume(AT.0 != 0);
            let args = ARGS.0.unwrap();
            let l = CLayoutOf::<$Box<u64, $($X),*>> {
                env_ptr: AT.0 as *mut _,
                call: core::mem::transmute(c_call as unsafe extern "C" fn(NonNull<c_void>, $($X),*) -> u64),
                free: core::mem::transmute(c_free as unsafe extern "C" fn(NonNull<c_void>)),
            };
            let mut b = from_raw::<$Box<u64, $($X),*>>(l).unwrap();
            assert!(calls() == 0 && FREED.0 == 0);
            assert!(b.call($(args.$i),*) == RET.0 && calls() == 1 && FREED.0 == 0);
            drop(b);
            assert!(calls() == 1 && FREED.0 == 1);
        }
    }}
    /// A shared closure made by someone else (C).
    harness! { $ca, unwind = 4, {
        static mut ARGS: (Option<All>, u64) = (None, TAG);
        static mut RET: (u64, u64) = (0, TAG);
        static mut AT: (usize, u64) = (0, TAG);
        static mut RETAINED: (i64, u64) = (0, TAG);
        static mut RELEASED: (i64, u64) = (0, TAG);
        unsafe extern "C" fn c_call(env: NonNull<c_void>, $($x: $X),*) -> u64 {
            called();
            let all = ARGS.0.unwrap();
            assert!(env.as_ptr() as usize == AT.0, "the environment pointer");
            assert!(($($x,)*) == first!(all; $($i)*), "the arguments, in order");
            RET.0
        }
        unsafe extern "C" fn c_retain(env: NonNull<c_void>) { assert!(env.as_ptr() as usize == AT.0); RETAINED.0 += 1; }
        unsafe extern "C" fn c_release(env: NonNull<c_void>) { assert!(env.as_ptr() as usize == AT.0); RELEASED.0 += 1; }
        unsafe {
            ARGS.0 = Some(kani::any());
            RET.0 = kani::any();
            AT.0 = kani::any();
            kani::assume(AT.0 != 0);
            let args = ARGS.0.unwrap();
            let shareable: bool = kani::any();
            let l = CLayoutOf::<$Arc<u64, $($X),*>> {
                env_ptr: AT.0 as *mut _,
                call: core::mem::transmute(c_call as unsafe extern "C" fn(NonNull<c_void>, $($X),*) -> u64),
                release: core::mem::transmute(c_release as unsafe extern "C" fn(NonNull<c_void>)),
                retain: if shareable { core::mem::transmute(c_retain as unsafe extern "C" fn(NonNull<c_void>)) } else { None },
            };
            let a = from_raw::<$Arc<u64, $($X),*>>(l).unwrap();
            assert!(a.call($(args.$i),*) == RET.0 && calls() == 1 && RETAINED.0 == 0 && RELEASED.0 == 0);
            if shareable {
                let c = a.clone();
                assert!(RETAINED.0 == 1 && RELEASED.0 == 0 && calls() == 1);
                assert!(c.call($(args.$i),*) == RET.0 && calls() == 2);
                drop(c);
                assert!(RETAINED.0 == 1 && RELEASED.0 == 1);
            }
            let before = RELEASED.0;
            drop(a);
            assert!(RELEASED.0 == before + 1 && RETAINED.0 == shareable as i64);
        }
    }}
}}
arity! { 0 pq_box_0 pq_arc_0 pq_ref_0 pq_c_box_0 pq_c_arc_0: BoxDynFnMut0 ArcDynFn0 RefDynFnMut0 () }
arity! { 1 pq_box_1 pq_arc_1 pq_ref_1 pq_c_box_1 pq_c_arc_1: BoxDynFnMut1 ArcDynFn1 RefDynFnMut1 (0 a: u8) }
arity! { 2 pq_box_2 pq_arc_2 pq_ref_2 pq_c_box_2 pq_c_arc_2: BoxDynFnMut2 ArcDynFn2 RefDynFnMut2 (0 a: u8, 1 b: u16) }
arity! { 3 pq_box_3 pq_arc_3 pq_ref_3 pq_c_box_3 pq_c_arc_3: BoxDynFnMut3 ArcDynFn3 RefDynFnMut3 (0 a: u8, 1 b: u16, 2 c: u32) }
arity! { 4 pq_box_4 pq_arc_4 pq_ref_4 pq_c_box_4 pq_c_arc_4: BoxDynFnMut4 ArcDynFn4 RefDynFnMut4 (0 a: u8, 1 b: u16, 2 c: u32, 3 d: u64) }
arity! { 5 pq_box_5 pq_arc_5 pq_ref_5 pq_c_box_5 pq_c_arc_5: BoxDynFnMut5 ArcDynFn5 RefDynFnMut5 (0 a: u8, 1 b: u16, 2 c: u32, 3 d: u64, 4 e: i8) }
arity! { 6 pq_box_6 pq_arc_6 pq_ref_6 pq_c_box_6 pq_c_arc_6: BoxDynFnMut6 ArcDynFn6 RefDynFnMut6 (0 a: u8, 1 b: u16, 2 c: u32, 3 d: u64, 4 e: i8, 5 f: i16) }
arity! { 7 pq_box_7 pq_arc_7 pq_ref_7 pq_c_box_7 pq_c_arc_7: BoxDynFnMut7 ArcDynFn7 RefDynFnMut7 (0 a: u8, 1 b: u16, 2 c: u32, 3 d: u64, 4 e: i8, 5 f: i16, 6 g: i32) }
arity! { 8 pq_box_8 pq_arc_8 pq_ref_8 pq_c_box_8 pq_c_arc_8: BoxDynFnMut8 ArcDynFn8 RefDynFnMut8 (0 a: u8, 1 b: u16, 2 c: u32, 3 d: u64, 4 e: i8, 5 f: i16, 6 g: i32, 7 h: i64) }
arity! { 9 pq_box_9 pq_arc_9 pq_ref_9 pq_c_box_9 pq_c_arc_9: BoxDynFnMut9 ArcDynFn9 RefDynFnMut9 (0 a: u8, 1 b: u16, 2 c: u32, 3 d: u64, 4 e: i8, 5 f: i16, 6 g: i32, 7 h: i64, 8 i: bool) }

/// Arguments and results that own something are moved exactly once.
#[derive_ReprC]
#[repr(C)]
pub struct Owned { n: u64, x: u8 }
impl Drop for Owned { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }
harness! { pq_owned_values, unwind = 4, {
    let n: u64 = kani::any();
    let mut b: repr_c::Box<dyn Send + FnMut(Owned, repr_c::Box<Owned>) -> Owned> = Box::new(move |o: Owned, p: repr_c::Box<Owned>| {
        assert!(o.n == n && p.n == n ^ 1);
        called();
        o
    }).into();
    let r = b.call(Owned { n, x: 1 }, Box::new(Owned { n: n ^ 1, x: 2 }).into());
    assert!(calls() == 1 && drops() == 1 && r.n == n && r.x == 1, "the argument not returned is dropped, once");
    drop(r);
    assert!(drops() == 2);
    drop(b);
    assert!(drops() == 2);
}}
/// Environments of no size.
harness! { pq_zero_sized, unwind = 4, {
    struct Unit;
    impl Drop for Unit { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }
    let u = Unit;
    let mut b: BoxDynFnMut0<u8> = Box::new(move || { let _ = &u; called(); 3u8 }).into();
    assert!(b.call() == 3 && calls() == 1 && drops() == 0);
    drop(b);
    assert!(drops() == 1);
    let u = Unit;
    let a: ArcDynFn0<u8> = Arc::new(move || { let _ = &u; called(); 4u8 }).into();
    let c = a.clone();
    assert!(c.call() == 4 && a.call() == 4 && calls() == 3);
    drop(c);
    assert!(drops() == 1);
    drop(a);
    assert!(drops() == 2);
}}
/// A shared closure that cannot be retained must not be cloned.
panics! { pq_not_shareable, unwind = 4, {
    unsafe extern "C" fn c_call(_: NonNull<c_void>) -> u8 { 1 }
    unsafe extern "C" fn c_release(_: NonNull<c_void>) {}
    unsafe {
        let l = CLayoutOf::<ArcDynFn0<u8>> {
            env_ptr: 8 as *mut _,
            call: core::mem::transmute(c_call as unsafe extern "C" fn(NonNull<c_void>) -> u8),
            release: core::mem::transmute(c_release as unsafe extern "C" fn(NonNull<c_void>)),
            retain: None,
        };
        let a = core::mem::ManuallyDrop::new(from_raw::<ArcDynFn0<u8>>(l).unwrap());
        core::mem::forget((*a).clone());
    }
}}
/// Which raw closures are accepted.
harness! { pq_raw, unwind = 4, {
    unsafe {
        let w: [usize; 3] = kani::any();
        let ok = <BoxDynFnMut1<u8, u16> as ReprC>::is_valid(&core::mem::transmute_copy(&w));
        assert!(ok == (w[0] != 0), "a boxed closure has an environment");
        let w: [usize; 4] = kani::any();
        let ok = <ArcDynFn1<u8, u16> as ReprC>::is_valid(&core::mem::transmute_copy(&w));
        assert!(ok == (w[0] != 0 && w[1] != 0 && w[2] != 0), "a shared closure has all but retain");
        let w: [usize; 2] = kani::any();
        let ok = <RefDynFnMut1<'static, u8, u16> as ReprC>::is_valid(&core::mem::transmute_copy(&w));
        assert!(ok == (w[0] != 0 && w[1] != 0));
    }
}}
