//! S01: slice and string views across the boundary.  The oracle is the Rust slice itself: address, length,
//! and the very places of memory its elements are at.
use crate::common::*;
use safer_ffi::prelude::*;
use safer_ffi::slice::{slice_boxed, slice_mut, slice_raw, slice_ref};
use safer_ffi::string::{str_boxed, str_ref};
use core::hash::{Hash, Hasher};

/// What C gets: pointer and length.
#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
struct Fat { ptr: *const u8, len: usize }
fn fat<T>(t: &T) -> Fat {
    assert!(core::mem::size_of::<T>() == core::mem::size_of::<Fat>());
    unsafe { core::mem::transmute_copy(t) }
}
fn of<T>(s: &[T]) -> Fat { Fat { ptr: s.as_ptr().cast(), len: s.len() } }

/// Any slice of `T` (length at least `min`), any contents.
fn any_of<T>(min: usize) -> &'static mut [T] {
    let n: usize = kani::any();
    kani::assume(n >= min && n < HUGE);
    let size = core::mem::size_of::<T>();
    unsafe {
        if size == 0 || n == 0 { return core::slice::from_raw_parts_mut(core::ptr::NonNull::dangling().as_ptr(), n); }
        let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n * size, core::mem::align_of::<T>()));
        #[cfg(test)] if p.is_null() { println!("cannot allocate {n} elements here"); std::process::exit(0) }
        core::slice::from_raw_parts_mut(p.cast(), n)
    }
}

fn shared<T: Copy>(s: &'static [T]) {
    let r: slice_ref<'_, T> = s.into();
    assert!(fat(&r) == of(s) && !fat(&r).ptr.is_null(), "pointer and length of the slice");
    assert!(of(r.as_slice()) == of(s), "as_slice");
    assert!(of(&*r) == of(s), "Deref");
    let c = r;
    assert!(of(c.as_slice()) == of(s) && of(Clone::clone(&r).as_slice()) == of(s), "copies");
    let raw: slice_raw<T> = r.into();
    assert!(raw.ptr.as_ptr() as *const T == s.as_ptr() && raw.len == s.len(), "raw");
    assert!(of(unsafe { raw.as_ref() }.as_slice()) == of(s), "raw and back");
    // through the C layout and back
    let f = fat(&r);
    let back: slice_ref<'_, T> = unsafe { core::mem::transmute_copy(&f) };
    assert!(of(back.as_slice()) == of(s), "handed out and back in");
}
harness! { pq_ref_u8, unwind = 2, { shared(any_of::<u8>(0)) }}
harness! { pq_ref_u64, unwind = 2, { shared(any_of::<u64>(0)) }}
harness! { pq_ref_unit, unwind = 2, { shared(any_of::<()>(0)) }}
#[derive(Clone, Copy, PartialEq)]
#[repr(C, align(16))]
pub struct Odd { a: u8, b: u32 }
harness! { pq_ref_struct, unwind = 2, { shared(any_of::<Odd>(0)) }}
harness! { pq_ref_read, unwind = 2, {
    let s = any_of::<u16>(1);
    let k = below(s.len());
    let x = s[k];
    let r: slice_ref<'_, u16> = (&*s).into();
    assert!(r[k] == x && r.as_slice()[k] == x && r.len() == s.len(), "elements");
}}
harness! { pq_ref_default, unwind = 2, {
    let r = slice_ref::<'_, u32>::default();
    assert!(r.len() == 0 && !fat(&r).ptr.is_null());
    let m = slice_mut::<'_, u32>::default();
    assert!(m.len() == 0 && !fat(&m).ptr.is_null());
    let b = slice_boxed::<u32>::default();
    assert!(b.len() == 0 && !fat(&b).ptr.is_null());
}}

fn exclusive<T: Copy>(s: &'static mut [T]) {
    let f = of(s);
    let mut m: slice_mut<'_, T> = s.into();
    assert!(fat(&m) == f && !f.ptr.is_null(), "pointer and length of the slice");
    assert!(of(&*m) == f && of(&mut *m) == f, "Deref, DerefMut");
    assert!(of(m.as_ref().as_slice()) == f, "as_ref");
    assert!(of(m.as_mut().as_slice()) == f, "as_mut");
    match kani::any::<u8>() % 3 {
        0 => assert!(of(m.as_slice()) == f, "as_slice"),
        1 => { let r: slice_ref<'_, T> = m.into(); assert!(fat(&r) == f && of(r.as_slice()) == f, "as a shared view") }
        _ => {
            let mut raw: slice_raw<T> = m.into();
            assert!(fat(&raw) == f, "raw");
            assert!(of(unsafe { raw.as_mut() }.as_slice()) == f && of(unsafe { raw.as_ref() }.as_slice()) == f, "raw and back");
        }
    }
}
harness! { pq_mut_u8, unwind = 2, { exclusive(any_of::<u8>(0)) }}
harness! { pq_mut_u64, unwind = 2, { exclusive(any_of::<u64>(0)) }}
harness! { pq_mut_unit, unwind = 2, { exclusive(any_of::<()>(0)) }}
harness! { pq_mut_struct, unwind = 2, { exclusive(any_of::<Odd>(0)) }}
// Writing through any view changes that element and no other.
harness! { pq_mut_write, unwind = 2, {
    let s = any_of::<u16>(2);
    let (k, j) = (below(s.len()), below(s.len()));
    kani::assume(j != k);
    let (x, other): (u16, u16) = (kani::any(), s[j]);
    let at = s.as_ptr();
    let mut m: slice_mut<'_, u16> = s.into();
    match kani::any::<u8>() % 3 {
        0 => m[k] = x,
        1 => m.as_mut().as_slice()[k] = x,
        _ => m.as_slice()[k] = x,
    }
    unsafe {
        assert!(*at.add(k) == x, "written");
        assert!(*at.add(j) == other, "nothing else");
    }
}}

fn boxed<T: Copy>(s: &'static mut [T]) {
    let f = of(s);
    let mut b: slice_boxed<T> = unsafe { Box::from_raw(s) }.into();
    assert!(fat(&b) == f && !f.ptr.is_null(), "pointer and length of the box");
    assert!(of(b.as_ref().as_slice()) == f && of(b.as_slice()) == f && of(&*b) == f, "shared views");
    assert!(of(b.as_slice_mut()) == f && of(b.as_mut().as_slice()) == f && of(&mut *b) == f, "exclusive views");
    let x: Box<[T]> = b.into();
    assert!(of(&x) == f, "back: the very box");
    core::mem::forget(x);
}
harness! { pq_boxed_u8, unwind = 2, { boxed(any_of::<u8>(0)) }}
harness! { pq_boxed_u64, unwind = 2, { boxed(any_of::<u64>(0)) }}
harness! { pq_boxed_unit, unwind = 2, { boxed(any_of::<()>(0)) }}
harness! { pq_boxed_struct, unwind = 2, { boxed(any_of::<Odd>(0)) }}

// ---- str
fn text(b: &'static [u8]) -> &'static str { unsafe { core::str::from_utf8_unchecked(b) } }
harness! { pq_str_ref, unwind = 2, {
    let s = text(any_of::<u8>(0));
    let r: str_ref<'_> = s.into();
    assert!(fat(&r) == of(s.as_bytes()) && !fat(&r).ptr.is_null(), "pointer and length");
    assert!(of(r.as_str().as_bytes()) == of(s.as_bytes()), "as_str");
    assert!(of((*r).as_bytes()) == of(s.as_bytes()) && of(AsRef::<str>::as_ref(&r).as_bytes()) == of(s.as_bytes()), "Deref, AsRef");
    let c = r;
    assert!(fat(&c) == fat(&r));
}}
harness! { pq_str_boxed, unwind = 2, {
    let s = any_of::<u8>(0);
    let f = of(s);
    let b: Box<str> = unsafe { Box::from_raw(s as *mut [u8] as *mut str) };
    let b: str_boxed = b.into();
    assert!(fat(&b) == f && !f.ptr.is_null(), "pointer and length");
    assert!(of((*b).as_bytes()) == f && of(b.as_ref().as_str().as_bytes()) == f && of(AsRef::<str>::as_ref(&b).as_bytes()) == f, "views");
    if kani::any() {
        let x: Box<str> = b.into();
        assert!(of(x.as_bytes()) == f, "back: the very box");
        core::mem::forget(x);
    } else {
        let x: String = b.into();
        assert!(of(x.as_bytes()) == f && x.capacity() == f.len, "back: the very memory");
        core::mem::forget(x);
    }
}}

// ---- comparisons: bounded, they run through the elements
fn some(a: [i16; 2]) -> &'static mut [i16] { let s: &'static mut [i16] = Box::leak(Box::new(a)); let n = below(3); &mut s[..n] }
#[derive(PartialEq)]
struct Seen { n: usize, sum: u64 }
impl Hasher for Seen {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) {
        let mut k = 0;
        while k < b.len() { self.n += 1; self.sum = self.sum.wrapping_mul(31).wrapping_add(b[k] as u64); k += 1 }
    }
}
fn hash<T: Hash + ?Sized>(t: &T) -> Seen { let mut h = Seen { n: 0, sum: 0 }; t.hash(&mut h); h }
fn agree<V: Ord + Hash>(a: V, b: V, x: &[i16], y: &[i16]) {
    assert!((a == b) == (x == y), "==");
    assert!((a != b) == (x != y), "!=");
    assert!(a.cmp(&b) == x.cmp(y), "cmp");
    assert!(a.partial_cmp(&b) == x.partial_cmp(y), "partial_cmp");
    assert!((a < b) == (x < y) && (a >= b) == (x >= y), "< and >=");
    assert!(hash(&a) == hash(x), "hash");
    core::mem::forget((a, b));
}
fn look(s: &[i16]) -> &'static [i16] { unsafe { core::slice::from_raw_parts(s.as_ptr(), s.len()) } }
harness! { bq_compare_ref, unwind = 16, {
    let (x, y) = (some(kani::any()), some(kani::any()));
    agree(slice_ref::from(&*x), slice_ref::from(&*y), x, y)
}}
harness! { bq_compare_mut, unwind = 16, {
    let (x, y) = (some(kani::any()), some(kani::any()));
    let (p, q) = (look(x), look(y));
    agree(slice_mut::from(x), slice_mut::from(y), p, q)
}}
harness! { bq_compare_boxed, unwind = 16, {
    let (x, y) = (some(kani::any()), some(kani::any()));
    let (p, q) = (look(x), look(y));
    unsafe { agree(slice_boxed::from(Box::from_raw(x)), slice_boxed::from(Box::from_raw(y)), p, q) }
}}
// Elements that are not totally ordered.
harness! { bq_compare_float, unwind = 8, {
    let (x, y): ([f32; 1], [f32; 1]) = (kani::any(), kani::any());
    let (a, b) = (slice_ref::from(&x[..]), slice_ref::from(&y[..]));
    assert!((a == b) == (x == y) && a.partial_cmp(&b) == x.partial_cmp(&y), "NaN included");
}}
