//! S02: owned containers across the boundary (CBMC's leak check is on): address, length, capacity and elements stay,
//! every element is dropped exactly once, and the whole allocation is freed (with its layout: CBMC checks it).
use crate::common::*;
use safer_ffi::prelude::*;
use safer_ffi::slice::slice_boxed;
use safer_ffi::string::str_boxed;

/// An element that counts its destructions; `id` tells which one.
static mut DROPS: ([u8; 8], u64) = ([0; 8], TAG);
static mut CLONES: (u32, u64) = (0, TAG);
pub struct El { id: u8, x: u32 }
impl Drop for El { fn drop(&mut self) { unsafe { DROPS.0[self.id as usize] += 1 } } }
impl Clone for El { fn clone(&self) -> El { unsafe { CLONES.0 += 1 } El { id: self.id + 4, x: self.x } } }
fn el(id: u8) -> El { El { id, x: kani::any() } }
fn drops(id: usize) -> u8 { unsafe { DROPS.0[id] } }
/// Exactly the elements 0..n were dropped, once each.
fn dropped(n: usize) { let mut k = 0; while k < 8 { assert!(drops(k) == (k < n) as u8, "each element dropped exactly once"); k += 1 } }
fn vec_of(n: usize, spare: usize) -> Vec<El> {
    let mut v = Vec::with_capacity(n + spare);
    let mut k = 0;
    while k < n { v.push(el(k as u8)); k += 1 }
    v
}
fn raw<T, U>(t: &T) -> U { assert!(core::mem::size_of::<T>() == core::mem::size_of::<U>()); unsafe { core::mem::transmute_copy(t) } }

// ---- Box
harness! { pq_box, unwind = 10, {
    let b = Box::new(el(0));
    let (p, x): (*const El, u32) = (&*b, b.x);
    let mut c: repr_c::Box<El> = b.into();
    assert!(raw::<_, *const El>(&c) == p, "same address");
    assert!(&*c as *const El == p && c.x == x, "Deref");
    let y = kani::any();
    c.x = y;
    assert!(&mut *c as *const El == p, "DerefMut");
    dropped(0);
    if kani::any() {
        let b: Box<El> = c.into();
        assert!(&*b as *const El == p && b.x == y, "back: the very box");
        dropped(0);
        drop(b);
    } else { drop(c) }
    dropped(1);
}}
harness! { pq_box_new, unwind = 10, {
    let x = kani::any();
    let c = safer_ffi::boxed::Box_::new(El { id: 0, x });
    assert!(c.x == x);
    dropped(0);
    drop(c);
    dropped(1);
}}
harness! { pq_box_clone, unwind = 10, {
    let c = safer_ffi::boxed::Box_::new(el(0));
    let x = c.x;
    let mut d = c.clone();
    assert!(d.x == x && unsafe { CLONES.0 } == 1 && &*c as *const El != &*d as *const El, "equal, made once, independent");
    d.x = kani::any();
    assert!(c.x == x);
    drop(c);
    assert!(drops(0) == 1 && drops(4) == 0);
    drop(d);
    assert!(drops(0) == 1 && drops(4) == 1);
}}
#[derive(Clone)]
struct Unit;
static mut UNITS: (u32, u64) = (0, TAG);
impl Drop for Unit { fn drop(&mut self) { unsafe { UNITS.0 += 1 } } }
harness! { pq_box_zero_sized, unwind = 10, {
    let c: repr_c::Box<Unit> = Box::new(Unit).into();
    assert!(!raw::<_, *const u8>(&c).is_null());
    if kani::any() { let b: Box<Unit> = c.into(); drop(b) } else { drop(c) }
    assert!(unsafe { UNITS.0 } == 1);
}}

// ---- boxed slices
macro_rules! slices { ($($n:ident $l:literal)*) => { $(
    harness! { $n, unwind = 10, {
        let b = vec_of($l, 0).into_boxed_slice();
        let p = b.as_ptr();
        let c: slice_boxed<El> = b.into();
        assert!(c.as_ptr() == p && c.len() == $l);
        dropped(0);
        if kani::any() {
            let b: Box<[El]> = c.into();
            assert!(b.as_ptr() == p && b.len() == $l);
            dropped(0);
            drop(b);
        } else { drop(c) }
        dropped($l);
    }}
)* }}
slices! { bq_slice_0 0  bq_slice_1 1  bq_slice_3 3 }
harness! { bq_slice_clone, unwind = 10, {
    let c: slice_boxed<El> = vec_of(2, 0).into_boxed_slice().into();
    let d = c.clone();
    assert!(d.len() == 2 && d[0].x == c[0].x && d[1].x == c[1].x && unsafe { CLONES.0 } == 2, "equal");
    assert!(d.as_ptr() != c.as_ptr(), "independent");
    if kani::any() { drop(c); assert!(drops(0) == 1 && drops(1) == 1 && drops(4) == 0); drop(d); }
    else { drop(d); assert!(drops(4) == 1 && drops(5) == 1 && drops(0) == 0); drop(c); }
    assert!(drops(0) == 1 && drops(1) == 1 && drops(4) == 1 && drops(5) == 1);
}}
// Any length of plain bytes: the allocation is freed, with its own layout.
harness! { pq_slice_any_length, unwind = 2, {
    let c: slice_boxed<u8> = any_box().into();
    if kani::any() { drop(c) } else { let b: Box<[u8]> = c.into(); drop(b) }
}}
harness! { pq_str_any_length, unwind = 2, {
    let b: Box<str> = unsafe { Box::from_raw(any_slice() as *mut [u8] as *mut str) };
    let p = b.as_ptr();
    let c: str_boxed = b.into();
    match kani::any::<u8>() % 3 {
        0 => drop(c),
        1 => { let b: Box<str> = c.into(); assert!(b.as_ptr() == p); drop(b) }
        _ => { let b: String = c.into(); assert!(b.as_ptr() == p); drop(b) }
    }
}}
harness! { bq_str_from, unwind = 10, {
    let t: [u8; 3] = kani::any();
    kani::assume(t[0] < 0x80 && t[1] < 0x80 && t[2] < 0x80);
    let s = unsafe { core::str::from_utf8_unchecked(&t) };
    let c: str_boxed = if kani::any() { s.into() } else { let mut o = String::with_capacity(5); o.push_str(s); o.into() };
    assert!(c.len() == 3 && c.as_bytes()[below(3)] < 0x80);
    let k = below(3);
    assert!(c.as_bytes()[k] == t[k]);
}}

// ---- Vec
#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
struct Parts { ptr: *const u8, len: usize, cap: usize }
fn parts<T>(v: &Vec<T>) -> Parts { Parts { ptr: v.as_ptr().cast(), len: v.len(), cap: v.capacity() } }
fn any_vec() -> Vec<u8> {
    let s = any_slice();
    let n: usize = kani::any();
    kani::assume(n <= s.len());
    unsafe { Vec::from_raw_parts(s.as_mut_ptr(), n, s.len()) }
}
harness! { pq_vec_any, unwind = 2, {
    let v = any_vec();
    let f = parts(&v);
    let mut c: repr_c::Vec<u8> = v.into();
    assert!(raw::<_, Parts>(&c) == f, "pointer, length, capacity");
    assert!(c.len() == f.len && c.as_ptr() == f.ptr, "Deref");
    assert!(c.as_ref().as_slice().as_ptr() == f.ptr && c.as_ref().len() == f.len, "as_ref");
    assert!(c.as_mut().as_slice().as_ptr() as *const u8 == f.ptr && c.as_mut().len() == f.len, "as_mut");
    { let m: &mut [u8] = &mut c; assert!(m.as_ptr() == f.ptr && m.len() == f.len, "DerefMut"); }
    if kani::any() {
        let v: Vec<u8> = c.into();
        assert!(parts(&v) == f, "back: the very vector");
        drop(v);
    } else { drop(c) }
}}
harness! { pq_vec_empty, unwind = 10, {
    let e = repr_c::Vec::<El>::EMPTY;
    assert!(e.len() == 0 && !e.as_ptr().is_null());
    drop(e);
    let v: Vec<El> = repr_c::Vec::EMPTY.into();
    assert!(v.len() == 0 && v.capacity() == 0);
    drop(v);
    let c: repr_c::Vec<El> = Vec::new().into();
    drop(c);
    let c: repr_c::Vec<El> = Vec::with_capacity(3).into();
    drop(c);
    dropped(0);
}}
macro_rules! vecs { ($($n:ident $l:literal $s:literal)*) => { $(
    harness! { $n, unwind = 10, {
        let v = vec_of($l, $s);
        let f = parts(&v);
        let c: repr_c::Vec<El> = v.into();
        assert!(raw::<_, Parts>(&c) == f);
        dropped(0);
        if kani::any() {
            let v: Vec<El> = c.into();
            assert!(parts(&v) == f);
            dropped(0);
            drop(v);
        } else { drop(c) }
        dropped($l);
    }}
)* }}
vecs! { bq_vec_1 1 0  bq_vec_2_spare 2 2  bq_vec_3 3 0 }
harness! { pq_vec_zero_sized, unwind = 10, {
    let c: repr_c::Vec<Unit> = vec![Unit, Unit].into();
    assert!(c.len() == 2);
    if kani::any() { let v: Vec<Unit> = c.into(); assert!(v.len() == 2); drop(v) } else { drop(c) }
    assert!(unsafe { UNITS.0 } == 2);
}}
harness! { bq_vec_clone, unwind = 10, {
    let c: repr_c::Vec<u16> = vec![kani::any(), kani::any()].into();
    let mut d = c.clone();
    assert!(d.len() == 2 && d[0] == c[0] && d[1] == c[1] && c.as_ptr() != d.as_ptr(), "equal and independent");
    let old = c[0];
    d[0] = kani::any();
    assert!(c[0] == old);
    if kani::any() { drop(c); let _ = d[1]; } else { drop(d); assert!(c[0] == old); }
}}
harness! { bq_c_vec_macro, unwind = 10, {
    let c = safer_ffi::c_vec![el(0), el(1)];
    assert!(c.len() == 2 && c[1].id == 1);
    drop(c);
    dropped(2);
}}
// In place: whatever the container's final state is, that is the state of the C value.
harness! { bq_vec_in_place, unwind = 10, {
    let mut c: repr_c::Vec<El> = vec_of(2, kani::any::<bool>() as usize).into();
    let op = kani::any::<u8>() % 5;
    let (f, r) = c.with_rust_mut(|v| {
        match op {
            0 => {}
            1 => v.push(el(2)),
            2 => { v.pop(); }
            3 => v.clear(),
            _ => { v.pop(); v.shrink_to_fit(); }
        }
        (parts(v), 77u8)
    });
    assert!(r == 77, "the result is handed on");
    assert!(raw::<_, Parts>(&c) == f, "pointer, length, capacity of the final state");
    assert!(f.len == [2, 3, 1, 0, 1][op as usize]);
    drop(c);
    dropped(if op == 1 { 3 } else { 2 });
}}
// Replacing the whole container in place.
harness! { bq_vec_replaced, unwind = 10, {
    let mut c: repr_c::Vec<El> = vec_of(2, 0).into();
    let old = c.with_rust_mut(|v| core::mem::replace(v, vec![El { id: 2, x: 9 }]));
    assert!(c.len() == 1 && c[0].x == 9 && old.len() == 2);
    drop(c);
    assert!(drops(2) == 1 && drops(0) == 0);
    drop(old);
    dropped(3);
}}

// ---- String
harness! { pq_string_any, unwind = 2, {
    let v = any_vec();
    let f = parts(&v);
    let s = unsafe { String::from_utf8_unchecked(v) };
    let c: repr_c::String = s.into();
    assert!(raw::<_, Parts>(&c) == f, "pointer, length, capacity");
    assert!(c.len() == f.len && c.as_ptr() == f.ptr, "Deref");
    if kani::any() {
        let s: String = c.into();
        assert!(parts(&s.into_bytes()) == f, "back: the very string");
    } else { drop(c) }
}}
harness! { bq_string_in_place, unwind = 10, {
    let mut c: repr_c::String = "ab".into();
    assert!(c.len() == 2 && c.as_bytes()[0] == b'a' && c.as_bytes()[1] == b'b', "from text");
    let grow: bool = kani::any();
    let n = c.with_rust_mut(|s| { if grow { s.push('c') } else { s.clear() }; s.len() });
    assert!(c.len() == n && n == if grow { 3 } else { 0 });
    assert!(!grow || c.as_bytes()[2] == b'c');
    let d = c.clone();
    assert!(d.len() == n && (!grow || d.as_ptr() != c.as_ptr()));
    drop(c);
    assert!(!grow || d.as_bytes()[2] == b'c');
    let e = repr_c::String::EMPTY;
    assert!(e.len() == 0);
}}
