//! P01: the typed pointer wrappers.  The oracle is the plain pointer: same address, same place of memory, and for the
//! owning wrapper a ghost destructor count and the allocator's own bookkeeping (double free, leak).
use crate::common::*;
use safer_ffi::prelude::*;
use safer_ffi::ptr::{NonNullMut, NonNullOwned, NonNullRef};
use core::mem::{align_of, size_of, MaybeUninit};
use core::ptr::NonNull;

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(C, align(16))]
pub struct Odd { a: u8, b: u32 }

static mut DROPS: (i64, u64) = (0, TAG);
static mut LAST: (u64, u64) = (0, TAG);
fn drops() -> i64 { unsafe { DROPS.0 } }
pub struct Tracked(u64);
impl Drop for Tracked { fn drop(&mut self) { unsafe { DROPS.0 += 1; LAST.0 = self.0; } } }
pub struct TrackedUnit;
impl Drop for TrackedUnit { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }

/// Any non-null address at all.
fn any_ptr<T>() -> NonNull<T> {
    let a: usize = kani::any();
    kani::assume(a != 0);
    NonNull::new(a as *mut T).unwrap()
}

fn same_size<T: 'static>() {
    macro_rules! one { ($W:ident) => {
        assert!(size_of::<$W<T>>() == size_of::<*const T>() && align_of::<$W<T>>() == align_of::<*const T>());
        assert!(size_of::<Option<$W<T>>>() == size_of::<*const T>(), "null is the niche");
        assert!(unsafe { core::mem::transmute_copy::<Option<$W<T>>, usize>(&None) } == 0, "None is null");
        let p = any_ptr::<T>();
        assert!(unsafe { core::mem::transmute_copy::<_, usize>(&$W::<T>::from(p)) } == p.as_ptr() as usize);
        assert!(unsafe { core::mem::transmute_copy::<_, usize>(&Some($W::<T>::from(p))) } == p.as_ptr() as usize);
    }}
    one!(NonNullRef); one!(NonNullMut); one!(NonNullOwned);
    assert!(size_of::<Out<'static, T>>() == size_of::<*const T>());
    assert!(size_of::<Option<Out<'static, T>>>() == size_of::<*const T>());
}
harness! { pq_layout, unwind = 2, {
    same_size::<u8>();
    same_size::<()>();
    same_size::<Odd>();
    same_size::<[u64; 5]>();
}}

/// Every conversion keeps any address.
fn address<T, U>() {
    let p = any_ptr::<T>();
    let a = p.as_ptr() as usize;
    let r = NonNullRef::<T>::from(p);
    assert!(r.as_ptr() as usize == a && *r == p && r.0 == p, "NonNullRef");
    let c = r;
    assert!(c.as_ptr() == r.as_ptr() && Clone::clone(&r).as_ptr() == r.as_ptr(), "NonNullRef: copies");
    assert!(r.cast::<U>().as_ptr() as usize == a && r.cast::<U>().cast::<T>().as_ptr() as usize == a, "NonNullRef: cast");
    let mut m = NonNullMut::<T>::from(p);
    assert!(m.as_ptr() as usize == a && m.as_mut_ptr() as usize == a && *m == p && m.0 == p, "NonNullMut");
    let m2 = m.copy();
    assert!(m2.as_ptr() as usize == a && m.as_ptr() as usize == a, "NonNullMut: copy");
    assert!(m2.cast::<U>().as_ptr() as usize == a, "NonNullMut: cast");
    let q = any_ptr::<T>();
    *m = q;
    assert!(m.0 == q && m.as_mut_ptr() == q.as_ptr(), "NonNullMut: DerefMut");
    let mut o = NonNullOwned::<T>::from(p);
    assert!(o.as_ptr() as usize == a && o.as_mut_ptr() as usize == a && *o == p && o.0 == p, "NonNullOwned");
    let o2 = o.copy();
    assert!(o2.as_ptr() as usize == a && o.as_ptr() as usize == a, "NonNullOwned: copy");
    assert!(o2.cast::<U>().as_ptr() as usize == a, "NonNullOwned: cast");
    *o = q;
    assert!(o.0 == q && o.as_mut_ptr() == q.as_ptr(), "NonNullOwned: DerefMut");
    assert!(drops() == 0);
}
harness! { pq_address_u8, unwind = 2, { address::<u8, u64>() }}
harness! { pq_address_struct, unwind = 2, { address::<Odd, ()>() }}
harness! { pq_address_unit, unwind = 2, { address::<(), Tracked>() }}

/// Provenance: what is written through one is read through the others.
harness! { pq_provenance, unwind = 2, {
    let (x, y, z): (u64, u64, u64) = (kani::any(), kani::any(), kani::any());
    let mut v = x;
    {
        let r = NonNullRef::<u64>::from(&v);
        assert!(unsafe { *r.as_ptr() } == x && unsafe { *r.0.as_ref() } == x);
        assert!(unsafe { *r.cast::<u32>().as_ptr() } == x as u32, "the same place, seen as another type");
    }
    {
        let r = NonNullRef::<u64>::from(&mut v);
        assert!(unsafe { *r.as_ptr() } == x);
    }
    {
        let mut m = NonNullMut::<u64>::from(&mut v);
        unsafe { *m.as_mut_ptr() = y; }
        assert!(unsafe { *m.as_ptr() } == y && unsafe { *m.copy().as_ptr() } == y);
        unsafe { *m.copy().cast::<u64>().0.as_mut() = z; }
    }
    assert!(v == z, "and through the original");
}}

fn owned<T>(t: T) -> NonNullOwned<T> { NonNullOwned::from(NonNull::from(Box::leak(Box::new(t)))) }

/// The memory goes back exactly once (allocator bookkeeping), and the destructor runs as often as documented.
harness! { pq_drop_in_place_and_dealloc, unwind = 2, {
    let x: u64 = kani::any();
    let o = owned(Tracked(x));
    assert!(drops() == 0);
    unsafe { o.drop_in_place_and_dealloc::<Tracked>() };
    assert!(drops() == 1 && unsafe { LAST.0 } == x, "the destructor of that very value, once");
}}
harness! { pq_drop_in_place_and_dealloc_erased, unwind = 2, {
    let x: u64 = kani::any();
    let o: NonNullOwned<()> = owned(Tracked(x)).cast();
    unsafe { o.drop_in_place_and_dealloc::<Tracked>() };
    assert!(drops() == 1 && unsafe { LAST.0 } == x, "the type given decides, not the type of the pointer");
}}
harness! { pq_drop_in_place_and_dealloc_odd, unwind = 5, {
    unsafe {
        owned(Odd { a: 1, b: 2 }).cast::<u8>().drop_in_place_and_dealloc::<Odd>();
        owned([Tracked(1), Tracked(2), Tracked(3)]).cast::<u8>().drop_in_place_and_dealloc::<[Tracked; 3]>();
    }
    assert!(drops() == 3);
}}
harness! { pq_dealloc, unwind = 2, {
    let o: NonNullOwned<()> = owned(Tracked(7)).cast();
    unsafe { o.dealloc::<Tracked>() };
    assert!(drops() == 0, "freed without running the destructor");
}}
harness! { pq_drop_in_place, unwind = 2, {
    let x: u64 = kani::any();
    let mut o = owned(Tracked(x));
    let c = o.copy();
    unsafe { o.cast::<()>().drop_in_place::<Tracked>() };
    assert!(drops() == 1 && unsafe { LAST.0 } == x, "dropped once");
    assert!(unsafe { *c.as_ptr().cast::<u64>() } == x, "not freed");
    unsafe { c.dealloc::<Tracked>() };
    assert!(drops() == 1);
}}
harness! { pq_zero_sized, unwind = 2, {
    let o: NonNullOwned<TrackedUnit> = owned(TrackedUnit);
    unsafe { o.drop_in_place_and_dealloc::<TrackedUnit>() };
    assert!(drops() == 1, "zero-sized: destructor once, nothing to free");
    let o: NonNullOwned<TrackedUnit> = owned(TrackedUnit);
    unsafe { o.dealloc::<TrackedUnit>() };
    let o: NonNullOwned<TrackedUnit> = owned(TrackedUnit);
    assert!(drops() == 1);
    unsafe { o.drop_in_place::<TrackedUnit>() };
    assert!(drops() == 2);
}}

/// Writing through the out wrapper.
harness! { pq_out_write, unwind = 2, {
    let (x, y): (u64, u64) = (kani::any(), kani::any());
    let mut slots = [MaybeUninit::<u64>::uninit(), MaybeUninit::new(y)];
    let at = &slots[0] as *const _ as usize;
    let mut out: Out<'_, u64> = slots[0].as_out();
    assert!(out.as_mut_ptr() as usize == at && !out.as_mut_ptr().is_null());
    assert!(unsafe { core::mem::transmute_copy::<_, usize>(&out) } == at, "the out pointer is the plain pointer");
    let r: &mut u64 = out.r().write(x);
    assert!(*r == x && r as *const u64 as usize == at, "exactly the given value, right there");
    assert!(unsafe { slots[0].assume_init() } == x && unsafe { slots[1].assume_init() } == y, "nothing else");
}}
harness! { pq_out_over_init, unwind = 2, {
    let (x, y): (u32, u32) = (kani::any(), kani::any());
    let mut v = x;
    v.as_out().write(y);
    assert!(v == y);
    let mut t = Tracked(1);
    let _ = t.manually_drop_mut().as_out().write(Tracked(2));
    assert!(drops() == 0, "writing drops nothing");
    drop(t);
    assert!(drops() == 1 && unsafe { LAST.0 } == 2);
}}
/// Handed through the C layout and back.
harness! { pq_raw_and_back, unwind = 2, {
    use safer_ffi::layout::{from_raw, into_raw};
    unsafe {
        let (x, y): (u64, u64) = (kani::any(), kani::any());
        let mut v = x;
        let p = &mut v as *mut u64;
        let raw = into_raw(NonNullRef::<u64>::from(&*p));
        assert!(raw == p as *const u64);
        assert!(*from_raw::<NonNullRef<u64>>(raw).unwrap().as_ptr() == x);
        let raw = into_raw(NonNullMut::<u64>::from(&mut *p));
        assert!(raw == p);
        let mut m = from_raw::<NonNullMut<u64>>(raw).unwrap();
        assert!(*m.as_ptr() == x);
        *m.as_mut_ptr() = y;
        let raw = into_raw(owned(Tracked2 { x: y }));
        let o = from_raw::<NonNullOwned<Tracked2>>(raw).unwrap();
        assert!(drops() == 0 && (*o.as_ptr()).x == y);
        o.drop_in_place_and_dealloc::<Tracked2>();
        assert!(drops() == 1);
        let mut slot = MaybeUninit::<u64>::uninit();
        let raw = into_raw::<Out<'_, u64>>(slot.as_out());
        from_raw::<Out<'_, u64>>(raw).unwrap().write(x);
        assert!(slot.assume_init() == x && v == y);
    }
}}
#[derive_ReprC]
#[repr(C)]
pub struct Tracked2 { x: u64 }
impl Drop for Tracked2 { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }
