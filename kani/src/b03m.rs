//! B03, owners of the heap: with CBMC's leak check on, every harness also shows that nothing stays allocated.
use crate::common::*;
use safer_ffi::bytes::Bytes;
use std::sync::Arc;

/// A window that counts its own destruction.
static mut DROPS: (u32, u64) = (0, TAG);
struct Window { all: [u8; 40], hi: usize }
impl AsRef<[u8]> for Window { fn as_ref(&self) -> &[u8] { &self.all[..self.hi] } }
impl Drop for Window { fn drop(&mut self) { unsafe { DROPS.0 += 1 } } }

// Bounded: an Arc of symbolic length is too heavy (its count is written into a block of symbolic size).
macro_rules! arcs { ($($n:ident $l:literal)*) => { $(
    harness!{ $n, unwind = 60, {
        let a: [u8; $l] = kani::any();
        let arc: Arc<[u8]> = Arc::new(a);
        let keep = arc.clone();
        let b: Bytes<'_> = Bytes::from(arc);
        assert!(Arc::strong_count(&keep) == 2);
        let c = b.clone();
        assert!(Arc::strong_count(&keep) == 3, "a clone is one more reference");
        drop(b);
        assert!(Arc::strong_count(&keep) == 2);
        same(c.as_slice(), &a);
        drop(c);
        assert!(Arc::strong_count(&keep) == 1);
    }}
)* }}
arcs!{ bq_arc_slice_1 1  bq_arc_slice_40 40 }
harness!{ bq_arc_slice_last, unwind = 60, {
    let a: [u8; 40] = kani::any();
    let arc: Arc<[u8]> = Arc::new(a);
    let b: Bytes<'_> = Bytes::from(arc);
    let c = b.clone();
    if kani::any() { drop(b); same(c.as_slice(), &a); drop(c); } else { drop(c); same(b.as_slice(), &a); drop(b); }
}}
harness!{ bq_arc_slice_split, unwind = 80, {
    let a: [u8; 72] = kani::any();
    let arc: Arc<[u8]> = Arc::new(a);
    let keep = arc.clone();
    let b: Bytes<'_> = Bytes::from(arc);
    let i = below(73);
    match b.split_at(i) { Ok((l, r)) => { drop(l); drop(r); } Err(b) => drop(b) }
    assert!(Arc::strong_count(&keep) == 1);
}}
harness!{ pq_arc_type, unwind = 60, {
    let hi = below(41);
    let all: [u8; 40] = kani::any();
    let arc = Arc::new(Window { all, hi });
    let keep = arc.clone();
    let b: Bytes<'_> = Bytes::from(arc);
    assert!(Arc::strong_count(&keep) == 2);
    let c = b.clone();
    assert!(Arc::strong_count(&keep) == 3);
    drop(keep);
    drop(b);
    assert!(unsafe { DROPS.0 } == 0, "still viewed");
    same(c.as_slice(), &all[..hi]);
    drop(c);
    assert!(unsafe { DROPS.0 } == 1, "destroyed once");
}}
harness!{ pq_box, unwind = 36, {
    let bx = any_box();
    let r = below(bx.len());
    let x = bx[r];
    let b: Bytes<'_> = Bytes::from(bx);
    let b = b.subsliced(r..);
    assert!(b.as_slice()[0] == x);
    drop(b);
}}
harness!{ bq_box_clone, unwind = 60, {
    let a: [u8; 40] = kani::any();
    let bx: Box<[u8]> = Box::new(a);
    let b: Bytes<'_> = Bytes::from(bx);
    let c = b.clone();
    if kani::any() { drop(b); same(c.as_slice(), &a); drop(c); } else { drop(c); same(b.as_slice(), &a); drop(b); }
}}
harness!{ bq_box_short_clone, unwind = 60, {
    let a: [u8; 20] = kani::any();
    let bx: Box<[u8]> = Box::new(a);
    let b: Bytes<'_> = Bytes::from(bx);
    let c = b.clone();
    drop(b);
    same(c.as_slice(), &a);
    let d = c.clone().upgrade();
    drop(c);
    same(d.as_slice(), &a);
}}
harness!{ pt_vec, unwind = 36, {
    let v: Vec<u8> = any_box().into();
    let k = below(v.len());
    let x = v[k];
    let b: Bytes<'_> = Bytes::from(v);
    assert!(b.as_slice()[k] == x);
    let c = b.clone();
    drop(b);
    assert!(c.as_slice()[k] == x);
}}
harness!{ bq_vec, unwind = 60, {
    let a: [u8; 34] = kani::any();
    let bx: Box<[u8]> = Box::new(a);
    let v: Vec<u8> = bx.into();
    let b: Bytes<'_> = Bytes::from(v);
    same(b.as_slice(), &a);
    let i = below(35);
    match b.split_at(i) { Ok((l, r)) => { drop(r); drop(l) } Err(b) => drop(b) }
}}
harness!{ pq_vec_spare, unwind = 36, {
    let s = any_slice_min(2);
    let n = below(s.len());
    let v: Vec<u8> = unsafe { Vec::from_raw_parts(s.as_mut_ptr(), n, s.len()) };
    let b: Bytes<'_> = Bytes::from(v);
    assert!(b.len() == n);
    drop(b);
}}
harness!{ pq_empty_owners, unwind = 8, {
    drop(Bytes::from(Vec::<u8>::new()));
    drop(Bytes::from(Box::<[u8]>::from([])));
    let e: Arc<[u8]> = Arc::new([]);
    let b = Bytes::from(e);
    drop(b.clone());
    drop(b);
    drop(Bytes::empty().clone());
}}
harness!{ bq_upgrade_copy, unwind = 60, {
    let a: [u8; 40] = kani::any();
    let n = 30 + below(11);
    let u = Bytes::from_slice(&a[..n]).upgrade();
    let v = u.clone();
    drop(u);
    same(v.as_slice(), &a[..n]);
}}
// Any length: the box is freed exactly once, with its own layout (CBMC checks the pointer and the leak).
harness!{ pq_box_any_length, unwind = 36, {
    let b: Bytes<'_> = Bytes::from(any_box());
    drop(b);
}}
harness!{ pq_box_any_length_sliced, unwind = 36, {
    let b: Bytes<'_> = Bytes::from(any_box());
    let lo: usize = kani::any();
    kani::assume(lo <= b.len());
    drop(b.subsliced(lo..));
}}
harness!{ pq_box_any_length_upgraded, unwind = 36, {
    let b: Bytes<'_> = Bytes::from(any_box());
    drop(b.upgrade());
}}
