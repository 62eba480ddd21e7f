//! L02: layout of the C twins, and conversions into the raw form and back.  Oracles: the compiler's own layout of the Rust type,
//! and the bytes of the value.
use crate::common::*;
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, Opaque, ReprC};
use safer_ffi::prelude::*;
use safer_ffi::ptr::{NonNullMut, NonNullOwned, NonNullRef};
use safer_ffi::slice::{slice_boxed, slice_mut, slice_raw, slice_ref};
use safer_ffi::string::{str_boxed, str_ref};
use safer_ffi::tuple::*;
use core::mem::{align_of, offset_of, size_of};

static mut DROPS: (i64, u64) = (0, TAG);
fn drops() -> i64 { unsafe { DROPS.0 } }

fn twin<T: ReprC>() {
    assert!(size_of::<T>() == size_of::<CLayoutOf<T>>(), "same size");
    assert!(align_of::<T>() == align_of::<CLayoutOf<T>>(), "same alignment");
}
macro_rules! twins { ($n:ident: $($T:ty),* $(,)?) => { harness! { $n, unwind = 2, { $( twin::<$T>(); )* }} }}
twins! { pq_layout_basic: bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, f32, f64, safer_ffi::c_char,
    *const u8, *mut u64, &'static u8, &'static mut [u64; 2], core::ptr::NonNull<u16>, NonNullRef<u64>, NonNullMut<u8>, NonNullOwned<bool>,
    Out<'static, u64>, Option<&'static u64>, Option<Out<'static, u8>>, Option<core::ptr::NonNull<bool>> }
twins! { pq_layout_containers: repr_c::Box<u64>, slice_raw<u8>, slice_ref<'static, u64>, slice_mut<'static, u16>, slice_boxed<bool>, repr_c::Vec<u32>,
    repr_c::String, str_ref<'static>, str_boxed, char_p::Raw, char_p::Ref<'static>, char_p::Box,
    Option<repr_c::Box<u64>>, Option<slice_ref<'static, u8>>, Option<repr_c::Vec<u64>>, Option<repr_c::String>, Option<char_p::Box> }
twins! { pq_layout_functions: extern "C" fn(), unsafe extern "C" fn(u8, u64) -> u16, Option<extern "C" fn(*const u8)>,
    repr_c::Box<dyn Send + FnMut()>, repr_c::Box<dyn Send + FnMut(u8, u64) -> u16>, repr_c::Arc<dyn Send + Sync + Fn(u8) -> u64>, RefDynFnMut2<'static, u8, u16, u32> }
use safer_ffi::closure::RefDynFnMut2;
twins! { pq_layout_arrays: [u8; 1], [u16; 3], [bool; 32], [u64; 7], [[u32; 2]; 5], [&'static u8; 4], [u8; 1024], [f64; 100] }
twins! { pq_layout_tagged: TaggedOption<u8>, TaggedOption<u16>, TaggedOption<u64>, TaggedOption<bool>, TaggedOption<Mixed>, TaggedOption<[u16; 3]>, TaggedOption<&'static u8> }
use safer_ffi::option::TaggedOption;

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Mixed { a: u8, b: u64, c: bool, d: u16, e: [u8; 3], f: u32 }
#[derive_ReprC]
#[repr(C)]
pub struct Generic<'a, T: 'a> where T: ReprC { x: u8, inner: &'a T, y: T, z: bool }
#[derive_ReprC]
#[repr(C)]
pub struct Marked { marker: core::marker::PhantomData<u8>, a: u32, b: u8 }
#[derive_ReprC]
#[repr(transparent)]
#[derive(Clone, Copy)]
pub struct Wrapped(u64);
#[derive_ReprC]
#[repr(transparent)]
pub struct WrappedRef<'a>(&'a u64);
macro_rules! offsets { ($T:ty: $($f:tt),*) => {
    twin::<$T>();
    $( assert!(offset_of!($T, $f) == offset_of!(CLayoutOf<$T>, $f), "same field offset"); )*
}}
harness! { pq_layout_structs, unwind = 2, {
    offsets!(Mixed: a, b, c, d, e, f);
    offsets!(Generic<'static, u16>: x, inner, y, z);
    offsets!(Generic<'static, Mixed>: x, inner, y, z);
    offsets!(Generic<'static, bool>: x, inner, y, z);
    offsets!(Marked: a, b);
    twin::<Wrapped>();
    twin::<WrappedRef<'static>>();
}}
harness! { pq_layout_tuples, unwind = 2, {
    offsets!(Tuple1<u64>: _0);
    offsets!(Tuple2<u8, u64>: _0, _1);
    offsets!(Tuple2<u64, u8>: _0, _1);
    offsets!(Tuple3<u8, u16, u8>: _0, _1, _2);
    offsets!(Tuple4<u8, u64, bool, u32>: _0, _1, _2, _3);
    offsets!(Tuple5<u8, u16, u32, u64, u8>: _0, _1, _2, _3, _4);
    offsets!(Tuple6<u64, u8, u32, u16, bool, &'static u8>: _0, _1, _2, _3, _4, _5);
    let (a, b, c, d, e, f): (u8, u16, u32, u64, u8, bool) = kani::any();
    let t = Tuple6 { _0: a, _1: b, _2: c, _3: d, _4: e, _5: f };
    let r = unsafe { into_raw(t) };
    assert!(r._0 == a && r._1 == b && r._2 == c && r._3 == d && r._4 == e, "the fields, in order");
    let t = unsafe { from_raw_unchecked::<Tuple6<u8, u16, u32, u64, u8, bool>>(r) };
    assert!(t._0 == a && t._1 == b && t._2 == c && t._3 == d && t._4 == e && t._5 == f);
}}

/// Into raw and back, by value and by shared reference, checked and unchecked.
fn round<T: ReprC + Copy + 'static, Bits: Copy + PartialEq>(v: T) {
    assert!(size_of::<T>() == size_of::<Bits>());
    let is: Bits = unsafe { core::mem::transmute_copy(&v) };
    let raw: CLayoutOf<T> = unsafe { into_raw(v) };
    assert!(unsafe { core::mem::transmute_copy::<_, Bits>(&raw) } == is, "the same bits");
    let back = unsafe { from_raw::<T>(raw) }.unwrap();
    assert!(unsafe { core::mem::transmute_copy::<_, Bits>(&back) } == is, "the same bits");
    let back = unsafe { from_raw_unchecked::<T>(raw) };
    assert!(unsafe { core::mem::transmute_copy::<_, Bits>(&back) } == is, "the same bits");
    let raw: *const CLayoutOf<T> = unsafe { into_raw(&v) };
    assert!(raw as usize == &v as *const T as usize, "a reference is its address");
    let back: &T = unsafe { from_raw(raw) }.unwrap();
    assert!(core::ptr::eq(back, &v) && unsafe { core::mem::transmute_copy::<_, Bits>(back) } == is);
    let mut w = v;
    let at = &mut w as *mut T;
    let raw: *mut CLayoutOf<T> = unsafe { into_raw(&mut w) };
    assert!(raw as usize == at as usize);
    let back: &mut T = unsafe { from_raw(raw) }.unwrap();
    assert!(back as *mut T == at);
}
macro_rules! rounds { ($($n:ident: $T:ty, $U:ty;)*) => { $( harness! { $n, unwind = 34, { round::<$T, $U>(kani::any()); }} )* }}
rounds! {
    pq_round_bool: bool, u8; pq_round_u8: u8, u8; pq_round_u16: u16, u16; pq_round_u32: u32, u32; pq_round_u64: u64, u64; pq_round_usize: usize, usize;
    pq_round_i8: i8, i8; pq_round_i16: i16, i16; pq_round_i32: i32, i32; pq_round_i64: i64, i64; pq_round_isize: isize, isize;
    pq_round_f32: f32, u32; pq_round_f64: f64, u64;
    pq_round_array: [u16; 5], [u16; 5]; pq_round_bools: [bool; 4], [u8; 4]; pq_round_nested: [[u8; 3]; 2], [u8; 6];
}
harness! { pq_round_wrapped, unwind = 2, { round::<Wrapped, u64>(Wrapped(kani::any())); }}
harness! { pq_round_char, unwind = 2, { round::<safer_ffi::c_char, u8>(safer_ffi::c_char(kani::any())); }}
harness! { pq_round_pointers, unwind = 2, {
    let a: usize = kani::any();
    round::<*const u64, usize>(a as *const u64);
    round::<*mut u8, usize>(a as *mut u8);
    kani::assume(a != 0);
    round::<NonNullRef<u8>, usize>(core::ptr::NonNull::new(a as *mut u8).unwrap().into());
    round::<core::ptr::NonNull<u8>, usize>(core::ptr::NonNull::new(a as *mut u8).unwrap());
    extern "C" fn f(x: u8) -> u8 { x ^ 5 }
    round::<extern "C" fn(u8) -> u8, usize>(f);
    let raw = unsafe { into_raw::<extern "C" fn(u8) -> u8>(f) };
    assert!(unsafe { raw.unwrap()(3) } == 3 ^ 5);
    round::<Option<extern "C" fn(u8) -> u8>, usize>(Some(f));
    round::<Option<extern "C" fn(u8) -> u8>, usize>(None);
}}
harness! { pq_round_struct, unwind = 4, {
    let v = Mixed { a: kani::any(), b: kani::any(), c: kani::any(), d: kani::any(), e: kani::any(), f: kani::any() };
    let r = unsafe { into_raw(v) };
    assert!(r.a == v.a && r.b == v.b && r.d == v.d && r.e == v.e && r.f == v.f && unsafe { from_raw::<bool>(r.c) } == Some(v.c), "every field");
    let w = unsafe { from_raw::<Mixed>(r) }.unwrap();
    assert!(w.a == v.a && w.b == v.b && w.c == v.c && w.d == v.d && w.e == v.e && w.f == v.f, "every field");
    let x: u64 = kani::any();
    let g = Generic { x: v.a, inner: &x, y: v.b, z: v.c };
    let r = unsafe { into_raw(g) };
    assert!(r.x == v.a && r.inner == &x as *const u64 && r.y == v.b);
    let g = unsafe { from_raw_unchecked::<Generic<'_, u64>>(r) };
    assert!(g.x == v.a && core::ptr::eq(g.inner, &x) && g.y == v.b && g.z == v.c);
}}

/// Ownership: a value given away is not dropped, and the value that comes back is dropped once.
#[derive_ReprC]
#[repr(C)]
pub struct Owner { n: u64, flag: bool }
impl Drop for Owner { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }
harness! { pq_drop_once, unwind = 2, {
    let n: u64 = kani::any();
    let raw = unsafe { into_raw(Owner { n, flag: true }) };
    assert!(drops() == 0, "given away, not dropped");
    let b = unsafe { from_raw::<Owner>(raw) }.unwrap();
    assert!(drops() == 0 && b.n == n && b.flag);
    let raw = unsafe { into_raw(b) };
    let b = unsafe { from_raw_unchecked::<Owner>(raw) };
    assert!(drops() == 0 && b.n == n);
    drop(b);
    assert!(drops() == 1, "dropped once");
    let o = Owner { n, flag: false };
    let raw = unsafe { into_raw(&o) };
    let r: &Owner = unsafe { from_raw(raw) }.unwrap();
    assert!(r.n == n && !r.flag);
    assert!(drops() == 1, "references drop nothing");
    drop(o);
    assert!(drops() == 2);
}}
harness! { pq_refused_not_dropped, unwind = 2, {
    let bad: u8 = kani::any();
    kani::assume(bad > 1);
    let raw = Owner_Layout { n: 3, flag: unsafe { core::mem::transmute(bad) } };
    assert!(unsafe { from_raw::<Owner>(raw) }.is_none());
    assert!(drops() == 0, "nothing is dropped when a raw value is refused");
}}
harness! { pq_box_drop_once, unwind = 2, {
    let n: u64 = kani::any();
    let b: repr_c::Box<Owner> = Box::new(Owner { n, flag: true }).into();
    let at = &*b as *const Owner as usize;
    let raw = unsafe { into_raw(b) };
    assert!(raw as usize == at && drops() == 0);
    let b = unsafe { from_raw::<repr_c::Box<Owner>>(raw) }.unwrap();
    assert!(b.n == n && drops() == 0);
    let raw = unsafe { into_raw(Some(b)) };
    assert!(raw as usize == at && drops() == 0);
    drop(unsafe { from_raw::<Option<repr_c::Box<Owner>>>(raw) }.unwrap());
    assert!(drops() == 1);
    let raw = unsafe { into_raw::<Option<repr_c::Box<Owner>>>(None) };
    assert!(raw.is_null());
}}
harness! { pq_containers_round, unwind = 4, {
    unsafe {
        let s = [kani::any::<u8>(); 3];
        let raw = into_raw(slice_ref::from(&s[..]));
        assert!(raw.ptr == s.as_ptr() && raw.len == s.len());
        let raw2 = into_raw(from_raw::<slice_ref<'_, u8>>(raw).unwrap());
        assert!(raw2.ptr == raw.ptr && raw2.len == raw.len);
        let v: Vec<u64> = vec![kani::any(), 2, 3];
        let (p, n, c, x) = (v.as_ptr(), v.len(), v.capacity(), v[0]);
        let v: repr_c::Vec<u64> = v.into();
        let raw = into_raw(v);
        assert!(raw.ptr as *const u64 == p && raw.len == n && raw.cap == c);
        let v = from_raw::<repr_c::Vec<u64>>(raw).unwrap();
        assert!(v.as_ptr() == p && v.len() == n && v[0] == x);
        let v: Vec<u64> = v.into();
        assert!(v.capacity() == c);
        drop(v);
        let t: repr_c::String = String::from("ab").into();
        let p = t.as_ptr();
        let t = from_raw::<repr_c::String>(into_raw(t)).unwrap();
        assert!(t.as_ptr() == p && t.len() == 2);
    }
}}

/// Opaque types: only ever behind a pointer, which is kept; dropped as the concrete type, once.
#[derive_ReprC]
#[repr(opaque)]
pub struct Hidden { n: u64, s: u8 }
impl Drop for Hidden { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }
pub struct Plain(u64);
impl Drop for Plain { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }
harness! { pq_opaque, unwind = 2, {
    unsafe {
        let n: u64 = kani::any();
        let h = Hidden { n, s: 1 };
        let raw = into_raw(&h);
        assert!(raw as usize == &h as *const _ as usize);
        assert!(from_raw::<&Hidden>(raw).unwrap().n == n);
        drop(h);
        assert!(drops() == 1);
        let b: repr_c::Box<Hidden> = Box::new(Hidden { n, s: 2 }).into();
        let raw = into_raw(b);
        let b = from_raw::<repr_c::Box<Hidden>>(raw).unwrap();
        assert!(b.n == n && b.s == 2 && drops() == 1);
        drop(b);
        assert!(drops() == 2);
        assert!(from_raw::<&Hidden>(core::ptr::null()).is_none());
        let a: usize = kani::any();
        assert!(<&Hidden as ReprC>::is_valid(&(a as *const _)) == (a != 0 && a % align_of::<Hidden>() == 0));
    }
}}
harness! { pq_opaque_wrapper, unwind = 2, {
    unsafe {
        let n: u64 = kani::any();
        let mut p = Plain(n);
        {
            let at = &p as *const Plain as usize;
            let o: &Opaque<Plain> = (&p).into();
            assert!(o as *const _ as usize == at && o.0 == n && o.concrete.0 == n);
            let raw = into_raw(o);
            assert!(raw as usize == at && from_raw::<&Opaque<Plain>>(raw).unwrap().0 == n);
            let m: &mut Opaque<Plain> = (&mut p).into();
            assert!(m as *const _ as usize == at);
            m.0 = 5;
            (**m).0 += 1;
        }
        assert!(p.0 == 6 && drops() == 0);
        drop(p);
        assert!(drops() == 1);
        let b = Box::new(Plain(n));
        let at = &*b as *const Plain as usize;
        let o: Box<Opaque<Plain>> = b.into();
        assert!(&*o as *const _ as usize == at && o.0 == n && drops() == 1);
        drop(o);
        assert!(drops() == 2);
        let o: repr_c::Box<Opaque<Plain>> = Box::new(Plain(n)).into();
        assert!(o.0 == n && drops() == 2);
        let o = from_raw::<repr_c::Box<Opaque<Plain>>>(into_raw(o)).unwrap();
        drop(o);
        assert!(drops() == 3);
    }
}}
