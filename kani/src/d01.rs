//! D01: virtual objects.  Oracle: ghost counters of what is called, on which value, with what, and of the destruction of the
//! value behind the object; the allocator's bookkeeping (double free, leak) for its memory.
use crate::common::TAG;
use safer_ffi::prelude::*;
use safer_ffi::dyn_traits::{DynDrop, ErasedTy};
use safer_ffi::ptr;
use safer_ffi::layout::ConcreteReprC;
use core::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;

static mut DROPS: (i64, u64) = (0, TAG);
static mut CALLS: (i64, u64) = (0, TAG);
static mut CLONES: (i64, u64) = (0, TAG);
fn drops() -> i64 { unsafe { DROPS.0 } }
fn calls() -> i64 { unsafe { CALLS.0 } }
fn clones() -> i64 { unsafe { CLONES.0 } }

/// What arguments and results may own.
#[derive_ReprC]
#[repr(C)]
pub struct Owned { n: u64, x: u8 }
static mut OWNED_DROPS: (i64, u64) = (0, TAG);
impl Drop for Owned { fn drop(&mut self) { unsafe { OWNED_DROPS.0 += 1; } } }
#[derive_ReprC]
#[repr(u8)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { A = 3, B = 200 }

/// Methods of every shape: no argument, many, borrowed, optional, owning; with and without result; `&self` and `&mut self`.
#[derive_ReprC(dyn)]
pub trait Counter {
    fn get(&self) -> u64;
    fn nothing(&self);
    fn add(&mut self, n: u64) -> u64;
    fn many(&mut self, a: u8, b: i16, c: u32, d: bool, e: Kind, f: f64) -> Kind;
    fn pointers(&self, a: &u32, b: Option<&'_ u32>, c: &mut u32) -> bool;
    fn swap(&mut self, o: Owned, p: repr_c::Box<Owned>) -> repr_c::Box<Owned>;
    fn same_types(&self, x: u32, y: u32, z: u32) -> u32;
}
/// The real thing.
#[repr(align(16))]
pub struct Real { n: u64, seen: (u8, i16, u32, bool, Kind, u64) }
impl Drop for Real { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }
impl Counter for Real {
    fn get(&self) -> u64 { unsafe { CALLS.0 += 1 } self.n }
    fn nothing(&self) { unsafe { CALLS.0 += 10 } }
    fn add(&mut self, n: u64) -> u64 { unsafe { CALLS.0 += 100 } self.n ^= n; !self.n }
    fn many(&mut self, a: u8, b: i16, c: u32, d: bool, e: Kind, f: f64) -> Kind {
        unsafe { CALLS.0 += 1000 }
        self.seen = (a, b, c, d, e, f.to_bits());
        if e == Kind::A { Kind::B } else { Kind::A }
    }
    fn pointers(&self, a: &u32, b: Option<&'_ u32>, c: &mut u32) -> bool {
        unsafe { CALLS.0 += 10000 }
        *c = *a ^ b.map_or(7, |b| *b);
        b.is_some()
    }
    fn swap(&mut self, o: Owned, p: repr_c::Box<Owned>) -> repr_c::Box<Owned> {
        unsafe { CALLS.0 += 100000 }
        self.n = o.n;
        p
    }
    fn same_types(&self, x: u32, y: u32, z: u32) -> u32 { unsafe { CALLS.0 += 1000000 } x ^ y.rotate_left(1) ^ z.rotate_left(2) }
}
fn real(n: u64) -> Real { Real { n, seen: (0, 0, 0, false, Kind::A, 0) } }
/// Every method of the object does what the method of the value does.
fn every_method(v: &mut (impl Counter + ?Sized), n: u64) -> u64 {
    assert!(calls() == 0);
    assert!(v.get() == n && calls() == 1, "&self, result");
    v.nothing();
    assert!(calls() == 11, "&self, no result");
    let m: u64 = kani::any();
    assert!(v.add(m) == !(n ^ m) && calls() == 111, "&mut self");
    let n = n ^ m;
    assert!(v.get() == n && calls() == 112, "the change is visible");
    let e = if kani::any() { Kind::A } else { Kind::B };
    assert!(v.many(kani::any(), kani::any(), kani::any(), kani::any(), e, f64::from_bits(kani::any())) == if e == Kind::A { Kind::B } else { Kind::A });
    assert!(calls() == 1112);
    let (a, b, mut c): (u32, u32, u32) = kani::any();
    assert!(v.pointers(&a, Some(&b), &mut c) && c == a ^ b && calls() == 11112);
    assert!(!v.pointers(&a, None, &mut c) && c == a ^ 7 && calls() == 21112);
    let (o, p): (u64, u64) = kani::any();
    let got = v.swap(Owned { n: o, x: 1 }, Box::new(Owned { n: p, x: 2 }).into());
    assert!(unsafe { OWNED_DROPS.0 } == 1 && got.n == p && got.x == 2 && calls() == 121112, "the argument not returned is dropped, once");
    drop(got);
    assert!(unsafe { OWNED_DROPS.0 } == 2);
    let (x, y, z): (u32, u32, u32) = kani::any();
    assert!(v.same_types(x, y, z) == x ^ y.rotate_left(1) ^ z.rotate_left(2) && calls() == 1121112, "the arguments, in order");
    assert!(drops() == 0);
    o
}
/// The oracle itself, on the plain value.
harness! { pq_oracle, unwind = 4, {
    let n = kani::any();
    let mut r = real(n);
    let o = every_method(&mut r, n);
    assert!(r.n == o);
}}
harness! { pq_box, unwind = 4, {
    let n = kani::any();
    let mut v: VirtualPtr<dyn '_ + Counter> = Box::new(real(n)).into();
    assert!(drops() == 0 && calls() == 0);
    let o = every_method(&mut v, n);
    assert!(v.get() == o && drops() == 0);
    drop(v);
    assert!(drops() == 1, "destroyed once");
}}
harness! { pq_box_send_sync, unwind = 4, {
    let n = kani::any();
    let mut v: VirtualPtr<dyn Send + Sync + Counter> = Box::new(real(n)).into();
    every_method(&mut v, n);
    drop(v);
    assert!(drops() == 1);
}}
harness! { pq_mut, unwind = 4, {
    let n = kani::any();
    let mut r = real(n);
    let at = &r as *const Real as usize;
    let mut v: VirtualPtr<dyn '_ + Counter> = (&mut r).into();
    assert!(v.__ptr().as_ptr() as usize == at);
    let o = every_method(&mut v, n);
    drop(v);
    assert!(drops() == 0, "a borrow is left alone");
    assert!(r.n == o, "it was that very value");
    drop(r);
    assert!(drops() == 1);
}}
harness! { pq_args_land, unwind = 4, {
    let (a, b, c, d, f): (u8, i16, u32, bool, u64) = kani::any();
    let e = if kani::any() { Kind::A } else { Kind::B };
    let mut r = real(0);
    {
        let mut v: VirtualPtr<dyn '_ + Send + Sync + Counter> = (&mut r).into();
        v.many(a, b, c, d, e, f64::from_bits(f));
    }
    assert!(r.seen == (a, b, c, d, e, f));
}}

/// `&self` only: shared borrows and reference counts become possible.
#[derive_ReprC(dyn)]
pub trait Reader { fn read(&self, x: u64) -> u64; fn who(&self) -> usize; }
impl Reader for Real {
    fn read(&self, x: u64) -> u64 { unsafe { CALLS.0 += 1 } self.n ^ x }
    fn who(&self) -> usize { self as *const Real as usize }
}
fn reads(v: &impl Reader, n: u64, at: usize) {
    let before = calls();
    let x = kani::any();
    assert!(v.read(x) == n ^ x && calls() == before + 1 && v.who() == at);
}
harness! { pq_shared_box, unwind = 4, {
    let n = kani::any();
    let b = Box::new(real(n));
    let at = &*b as *const Real as usize;
    let v: VirtualPtr<dyn '_ + Reader> = b.into();
    reads(&v, n, at);
    drop(v);
    assert!(drops() == 1);
}}
harness! { pq_shared_ref, unwind = 4, {
    let n = kani::any();
    let r = real(n);
    let at = &r as *const Real as usize;
    if kani::any() {
        let v: VirtualPtr<dyn '_ + Reader> = (&r).into();
        reads(&v, n, at);
    } else {
        let v: VirtualPtr<dyn '_ + Send + Sync + Reader> = (&r).into();
        reads(&v, n, at);
    }
    assert!(drops() == 0 && r.n == n);
}}
harness! { pq_shared_mut, unwind = 4, {
    let n = kani::any();
    let mut r = real(n);
    let at = &r as *const Real as usize;
    {
        let v: VirtualPtr<dyn '_ + Send + Sync + Reader> = (&mut r).into();
        reads(&v, n, at);
    }
    assert!(drops() == 0 && r.n == n);
}}
harness! { pq_rc, unwind = 4, {
    let n = kani::any();
    let r = Rc::new(real(n));
    let at = &*r as *const Real as usize;
    let mine = Rc::clone(&r);
    let v: VirtualPtr<dyn '_ + Reader> = r.into();
    assert!(Rc::strong_count(&mine) == 2, "takes over the reference it is given");
    reads(&v, n, at);
    if kani::any() {
        drop(v);
        assert!(Rc::strong_count(&mine) == 1 && drops() == 0);
        drop(mine);
    } else {
        drop(mine);
        assert!(drops() == 0);
        reads(&v, n, at);
        drop(v);
    }
    assert!(drops() == 1, "destroyed once, by the last one");
}}
harness! { pq_arc, unwind = 4, {
    let n = kani::any();
    let r = Arc::new(real(n));
    let at = &*r as *const Real as usize;
    let mine = Arc::clone(&r);
    let v: VirtualPtr<dyn '_ + Send + Sync + Reader> = r.into();
    assert!(Arc::strong_count(&mine) == 2, "takes over the reference it is given");
    reads(&v, n, at);
    if kani::any() {
        drop(v);
        assert!(Arc::strong_count(&mine) == 1 && drops() == 0);
        drop(mine);
    } else {
        drop(mine);
        assert!(drops() == 0);
        reads(&v, n, at);
        drop(v);
    }
    assert!(drops() == 1, "destroyed once, by the last one");
}}

/// Cloneable objects.
#[derive_ReprC(dyn, Clone)]
pub trait Shared { fn value(&self) -> u64; fn place(&self) -> usize; }
impl Clone for Real { fn clone(&self) -> Real { unsafe { CLONES.0 += 1 } real(self.n) } }
impl Shared for Real {
    fn value(&self) -> u64 { self.n }
    fn place(&self) -> usize { self as *const Real as usize }
}
macro_rules! clone_box { ($v:ident, $n:ident, $at:ident) => {
    let c = $v.clone();
    assert!(clones() == 1 && drops() == 0, "the value is cloned, once");
    assert!(c.value() == $n && $v.value() == $n && $v.place() == $at && c.place() != $at, "equal and independent");
    let (a, b) = if kani::any() { ($v, c) } else { (c, $v) };
    drop(a);
    assert!(drops() == 1 && b.value() == $n, "the other one lives on");
    let d = b.clone();
    drop(b);
    assert!(d.value() == $n && clones() == 2 && drops() == 2);
    drop(d);
    assert!(drops() == 3 && clones() == 2);
}}
harness! { pq_clone_box, unwind = 4, {
    let n = kani::any();
    let b = Box::new(real(n));
    let at = &*b as *const Real as usize;
    let v: VirtualPtr<dyn '_ + Shared> = b.into();
    clone_box!(v, n, at);
}}
harness! { pq_clone_box_send, unwind = 4, {
    let n = kani::any();
    let b = Box::new(real(n));
    let at = &*b as *const Real as usize;
    let v: VirtualPtr<dyn Send + Sync + Shared> = b.into();
    clone_box!(v, n, at);
}}
harness! { pq_clone_ref, unwind = 4, {
    let n = kani::any();
    let r = real(n);
    let at = &r as *const Real as usize;
    let v: VirtualPtr<dyn '_ + Send + Sync + Shared> = (&r).into();
    let c = v.clone();
    assert!(c.value() == n && c.place() == at && v.place() == at);
    drop(v);
    let d = c.clone();
    drop(c);
    assert!(d.value() == n && d.place() == at);
    drop(d);
    assert!(drops() == 0 && clones() == 0);
}}
macro_rules! clone_counted { ($Rc:ident, $v:ident, $mine:ident, $n:ident, $at:ident) => {
    assert!($Rc::strong_count(&$mine) == 2);
    let c = $v.clone();
    assert!($Rc::strong_count(&$mine) == 3, "a clone adds exactly one reference");
    assert!(c.value() == $n && c.place() == $at && $v.place() == $at);
    drop($v);
    assert!($Rc::strong_count(&$mine) == 2);
    let d = c.clone();
    assert!($Rc::strong_count(&$mine) == 3);
    drop(c);
    drop($mine);
    assert!(drops() == 0 && d.value() == $n && d.place() == $at);
    drop(d);
    assert!(drops() == 1 && clones() == 0, "destroyed once, by the last one; never copied");
}}
harness! { pq_clone_rc, unwind = 4, {
    let n = kani::any();
    let r = Rc::new(real(n));
    let at = &*r as *const Real as usize;
    let mine = Rc::clone(&r);
    let v: VirtualPtr<dyn '_ + Shared> = r.into();
    clone_counted!(Rc, v, mine, n, at);
}}
harness! { pq_clone_arc, unwind = 4, {
    let n = kani::any();
    let r = Arc::new(real(n));
    let at = &*r as *const Real as usize;
    let mine = Arc::clone(&r);
    let v: VirtualPtr<dyn '_ + Send + Sync + Shared> = r.into();
    clone_counted!(Arc, v, mine, n, at);
}}

/// Pinned receivers.
#[derive_ReprC(dyn)]
pub trait Pinned { fn poke(self: Pin<&mut Self>, n: u64) -> u64; fn peek(&self) -> usize; }
impl Pinned for Real {
    fn poke(mut self: Pin<&mut Self>, n: u64) -> u64 { unsafe { CALLS.0 += 1 } self.n ^= n; self.n }
    fn peek(&self) -> usize { self as *const Real as usize }
}
fn pokes(v: &mut VirtualPtr<dyn '_ + Pinned>, n: u64, at: usize) -> u64 {
    let m: u64 = kani::any();
    assert!(Pin::new(&mut *v).poke(m) == n ^ m && calls() == 1 && v.peek() == at);
    let k: u64 = kani::any();
    assert!(Pin::new(&mut *v).poke(k) == n ^ m ^ k && calls() == 2 && v.peek() == at && drops() == 0);
    n ^ m ^ k
}
harness! { pq_pin_box, unwind = 4, {
    let n = kani::any();
    let b = Box::pin(real(n));
    let at = &*b as *const Real as usize;
    let mut v: VirtualPtr<dyn '_ + Pinned> = b.into();
    pokes(&mut v, n, at);
    drop(v);
    assert!(drops() == 1);
}}
harness! { pq_pin_mut, unwind = 4, {
    let n = kani::any();
    let mut r = real(n);
    let at = &r as *const Real as usize;
    let mut v: VirtualPtr<dyn '_ + Pinned> = unsafe { Pin::new_unchecked(&mut r) }.into();
    let end = pokes(&mut v, n, at);
    drop(v);
    assert!(drops() == 0 && r.n == end);
}}

/// Values of no size.
#[derive_ReprC(dyn)]
pub trait Maker { fn make(&self, t: Owned) -> Owned; }
pub struct Unit;
impl Drop for Unit { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }
impl Maker for Unit { fn make(&self, t: Owned) -> Owned { unsafe { CALLS.0 += 1 } t } }
harness! { pq_zero_sized, unwind = 4, {
    let x: u64 = kani::any();
    let v: VirtualPtr<dyn '_ + Maker> = Box::new(Unit).into();
    let o = v.make(Owned { n: x, x: 9 });
    assert!(o.n == x && o.x == 9 && unsafe { OWNED_DROPS.0 } == 0 && drops() == 0 && calls() == 1);
    drop(v);
    assert!(drops() == 1);
    let v: VirtualPtr<dyn Send + Sync + Maker> = Arc::new(Unit).into();
    let o = v.make(o);
    assert!(o.n == x && o.x == 9 && unsafe { OWNED_DROPS.0 } == 0 && drops() == 1 && calls() == 2);
    drop(v);
    assert!(drops() == 2 && unsafe { OWNED_DROPS.0 } == 0);
}}

/// Values of no size, and of one byte, behind every kind of ownership, cloned: one destruction for each owner of its own.
#[derive_ReprC(dyn, Clone)]
pub trait Tiny { fn tell(&self) -> u8; }
impl Clone for Unit { fn clone(&self) -> Unit { unsafe { CLONES.0 += 1 } Unit } }
impl Tiny for Unit { fn tell(&self) -> u8 { 77 } }
pub struct Byte(u8);
impl Drop for Byte { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }
impl Clone for Byte { fn clone(&self) -> Byte { unsafe { CLONES.0 += 1 } Byte(self.0) } }
impl Tiny for Byte { fn tell(&self) -> u8 { self.0 } }
fn tiny_box<T: Tiny + Clone + 'static>(t: T, n: u8) {
    let v: VirtualPtr<dyn '_ + Tiny> = Box::new(t).into();
    let w = v.clone();
    assert!(clones() == 1 && drops() == 0 && v.tell() == n && w.tell() == n);
    drop(v);
    assert!(drops() == 1 && w.tell() == n);
    drop(w);
    assert!(drops() == 2 && clones() == 1);
}
macro_rules! tiny_counted { ($Rc:ident, $Dyn:ty, $t:expr, $n:expr) => {
    let mine = $Rc::new($t);
    let n = $n;
    let v: VirtualPtr<$Dyn> = $Rc::clone(&mine).into();
    assert!($Rc::strong_count(&mine) == 2);
    let w = v.clone();
    assert!($Rc::strong_count(&mine) == 3 && v.tell() == n && w.tell() == n);
    drop(v);
    assert!($Rc::strong_count(&mine) == 2 && w.tell() == n);
    drop(w);
    assert!($Rc::strong_count(&mine) == 1 && drops() == 0);
    drop(mine);
    assert!(drops() == 1 && clones() == 0);
}}
harness! { pq_tiny_box_zst, unwind = 4, { tiny_box(Unit, 77) }}
harness! { pq_tiny_box_byte, unwind = 4, { let n = kani::any(); tiny_box(Byte(n), n) }}
harness! { pq_tiny_rc_zst, unwind = 4, { tiny_counted!(Rc, dyn '_ + Tiny, Unit, 77); }}
harness! { pq_tiny_arc_zst, unwind = 4, { tiny_counted!(Arc, dyn '_ + Send + Sync + Tiny, Unit, 77); }}
harness! { pq_tiny_rc_byte, unwind = 4, { let b: u8 = kani::any(); tiny_counted!(Rc, dyn '_ + Tiny, Byte(b), b); }}
harness! { pq_tiny_arc_byte, unwind = 4, { let b: u8 = kani::any(); tiny_counted!(Arc, dyn '_ + Send + Sync + Tiny, Byte(b), b); }}
harness! { pq_tiny_ref_zst, unwind = 4, {
    let u = Unit;
    let v: VirtualPtr<dyn '_ + Tiny> = (&u).into();
    let w = v.clone();
    assert!(w.tell() == 77);
    drop((v, w));
    assert!(drops() == 0 && clones() == 0);
}}

/// Through the C layout and back: nothing is destroyed, cloned or lost.
harness! { pq_raw, unwind = 4, {
    let n = kani::any();
    let b = Box::new(real(n));
    let at = &*b as *const Real as usize;
    let v: VirtualPtr<dyn '_ + Shared> = b.into();
    let raw = unsafe { safer_ffi::layout::into_raw(v) };
    assert!(drops() == 0 && clones() == 0);
    let v = unsafe { safer_ffi::layout::from_raw::<VirtualPtr<dyn '_ + Shared>>(raw) }.unwrap();
    assert!(v.value() == n && v.place() == at);
    drop(v);
    assert!(drops() == 1);
    unsafe {
        // pointer, release, retain, the two methods
        let w: [usize; 5] = kani::any();
        let ok = <VirtualPtr<dyn '_ + Shared> as safer_ffi::layout::ReprC>::is_valid(&core::mem::transmute_copy(&w));
        assert!(ok == (w[0] != 0 && w[1] != 0 && w[2] != 0 && w[3] != 0 && w[4] != 0), "nothing in an object may be null");
    }
}}
/// Optional objects: null in C exactly when None.
harness! { pq_optional, unwind = 4, {
    let n = kani::any();
    let v: Option<VirtualPtr<dyn '_ + Shared>> = if kani::any() { Some(Box::new(real(n)).into()) } else { None };
    let some = v.is_some();
    let raw = unsafe { safer_ffi::layout::into_raw(v) };
    let first: usize = unsafe { core::mem::transmute_copy(&raw) };
    assert!((first != 0) == some);
    let v = unsafe { safer_ffi::layout::from_raw::<Option<VirtualPtr<dyn '_ + Shared>>>(raw) }.unwrap();
    assert!(v.is_some() == some && drops() == 0);
    drop(v);
    assert!(drops() == some as i64);
}}
/// An object made by someone else (C): what it is handed, and when.
static mut AT: (usize, u64) = (0, TAG);
static mut RELEASED: (i64, u64) = (0, TAG);
static mut RETAINED: (i64, u64) = (0, TAG);
static mut RESULT: (u64, u64) = (0, TAG);
unsafe extern "C" fn c_release(p: ptr::NonNullOwned<ErasedTy>) { assert!(p.as_ptr() as usize == AT.0); RELEASED.0 += 1; }
unsafe extern "C" fn c_retain(p: ptr::NonNullRef<ErasedTy>) -> ptr::NonNullOwned<ErasedTy> { assert!(p.as_ptr() as usize == AT.0); RETAINED.0 += 1; AT.0 = AT.0.wrapping_add(16); if AT.0 == 0 { AT.0 = 16 }; any_at() }
unsafe extern "C" fn c_value(p: ptr::NonNullRef<ErasedTy>) -> u64 { assert!(p.as_ptr() as usize == AT.0); CALLS.0 += 1; RESULT.0 }
unsafe extern "C" fn c_place(p: ptr::NonNullRef<ErasedTy>) -> usize { p.as_ptr() as usize }
unsafe fn any_at() -> ptr::NonNullOwned<ErasedTy> { core::ptr::NonNull::new(AT.0 as *mut ErasedTy).unwrap().into() }
harness! { pq_c_object, unwind = 4, {
    unsafe {
        AT.0 = kani::any();
        RESULT.0 = kani::any();
        kani::assume(AT.0 != 0);
        let first = AT.0;
        let v: VirtualPtr<dyn '_ + Shared> = VirtualPtr::from_raw_parts(any_at(), SharedVTable {
            release_vptr: c_release, retain_vptr: c_retain, value: c_value, place: c_place, _invariant: core::marker::PhantomData,
        });
        assert!(v.value() == RESULT.0 && calls() == 1 && v.place() == AT.0);
        let c = v.clone();
        assert!(RETAINED.0 == 1 && RELEASED.0 == 0);
        assert!(c.place() == AT.0 && v.place() == first && AT.0 != first, "the clone is what retain returned");
        assert!(c.value() == RESULT.0 && calls() == 2);
        drop(c);
        assert!(RELEASED.0 == 1);
        AT.0 = first;
        drop(v);
        assert!(RELEASED.0 == 2 && RETAINED.0 == 1);
    }
}}

/// A destructor and nothing else.
harness! { pq_dyn_drop, unwind = 4, {
    let a = DynDrop::new(real(1));
    let b = a.clone();
    let (a, b) = if kani::any() { (a, b) } else { (b, a) };
    drop(a);
    assert!(drops() == 0);
    drop(b);
    assert!(drops() == 1 && clones() == 0);
}}
