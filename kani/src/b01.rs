//! B01: a Bytes value always shows exactly the bytes it was built from.
use crate::common::*;
use safer_ffi::bytes::Bytes;
use core::borrow::Borrow;
use core::hash::{Hash, Hasher};
use std::sync::Arc;

/// Every view shows `src`.
fn shows(b: &Bytes<'_>, src: &[u8]) {
    assert!(b.len() == src.len(), "len");
    same(b.as_slice(), src);
    let (d, a, o): (&[u8], &[u8], &[u8]) = (&**b, b.as_ref(), b.borrow());
    let s = b.as_slice();
    assert!(d.as_ptr() == s.as_ptr() && d.len() == s.len(), "Deref is as_slice");
    assert!(a.as_ptr() == s.as_ptr() && a.len() == s.len(), "AsRef is as_slice");
    assert!(o.as_ptr() == s.as_ptr() && o.len() == s.len(), "Borrow is as_slice");
}
fn done(b: Bytes<'_>) { core::mem::forget(b) }

harness!{ pq_max_inline, unwind = 2, {
    // "32 on 64 bit little-endian systems": everything but the last word.
    assert!(Bytes::MAX_INLINE_SIZE == core::mem::size_of::<Bytes<'static>>() - core::mem::size_of::<usize>());
    assert!(Bytes::MAX_INLINE_SIZE == 32);
}}
harness!{ pq_empty, unwind = 36, {
    let b = Bytes::empty();
    shows(&b, &[]); done(b);
    let b = <Bytes<'_> as Default>::default();
    shows(&b, &[]); done(b);
}}
harness!{ pq_from_slice, unwind = 40, {
    let s: &[u8] = any_slice();
    let b = Bytes::from_slice(s);
    kani::cover!(s.len() == 32);
    kani::cover!(s.len() == 33);
    kani::cover!(s.len() > 1000);
    shows(&b, s); done(b);
}}
harness!{ pq_from_static, unwind = 36, {
    let s: &'static [u8] = any_slice();
    let b = Bytes::from_static(s);
    shows(&b, s); done(b);
    let b: Bytes<'_> = Bytes::from(s);
    shows(&b, s); done(b);
}}
harness!{ pq_from_static_str, unwind = 36, {
    let s: &'static str = "h\u{e9}llo, a text beyond the inline limit";
    let b: Bytes<'_> = Bytes::from(s);
    shows(&b, s.as_bytes()); done(b);
}}
harness!{ pq_from_static_array, unwind = 36, {
    static A: [u8; 5] = [9, 8, 7, 6, 5];
    let b: Bytes<'_> = Bytes::from(&A);
    shows(&b, &A); done(b);
}}
harness!{ pq_from_raw_parts, unwind = 36, {
    let s: &'static [u8] = any_slice();
    let b = ghost(s, any_vt());
    shows(&b, s); done(b);
    assert!(live() == 1 && retained() == 0, "looking calls nothing");
}}
harness!{ pq_inline_slice, unwind = 40, {
    let s: &[u8] = any_slice();
    let r = Bytes::inline_slice(s);
    kani::cover!(s.len() == 32);
    kani::cover!(s.len() == 33);
    assert!(r.is_some() == (s.len() <= Bytes::MAX_INLINE_SIZE), "inlined exactly when it fits");
    if let Some(b) = r {
        shows(&b, s);
        assert!(!views(b.as_slice(), s), "an inlined value does not refer to its source");
        // it lives in the handle: moving the handle moves the bytes along
        let moved = Box::new(b);
        shows(&moved, s);
        core::mem::forget(moved);
    }
}}
harness!{ pq_inline_empty, unwind = 36, {
    let b = Bytes::inline_slice(&[]).unwrap();
    shows(&b, &[]); done(b);
    let b = Bytes::from_slice(&[]);
    shows(&b, &[]); done(b);
    let b = Bytes::copied_from_slice(&[]);
    shows(&b, &[]); done(b);
}}
harness!{ pq_copied_short, unwind = 40, {
    let a: [u8; 32] = kani::any();
    let s = &a[..below(33)];
    let b = Bytes::copied_from_slice(s);
    shows(&b, s);
    assert!(!views(b.as_slice(), s), "a copy");
    done(b);
}}
harness!{ pq_copied_long, unwind = 45, {
    let s: &[u8] = any_slice_min(33);
    let b = Bytes::copied_from_slice(s);
    assert!(!views(b.as_slice(), s), "a copy");
    shows(&b, s);
    done(b);
}}
harness!{ pq_from_box, unwind = 36, {
    let bx = any_box();
    let (p, n) = (bx.as_ptr(), bx.len());
    let s = unsafe { core::slice::from_raw_parts(p, n) };
    let b: Bytes<'_> = Bytes::from(bx);
    shows(&b, s);
    done(b);
}}
harness!{ pq_from_vec, unwind = 36, {
    let n: usize = kani::any();
    kani::assume(n > 0 && n < HUGE);
    let s = any_slice();
    let (p, n) = (s.as_mut_ptr(), s.len());
    let src = unsafe { core::slice::from_raw_parts(p, n) };
    let v: Vec<u8> = unsafe { Vec::from_raw_parts(p, n, n) };
    let b: Bytes<'_> = Bytes::from(v);
    shows(&b, src);
    done(b);
}}
// Spare capacity: the vector is shrunk (reallocated), so the contents are compared with what was there before.
harness!{ pq_from_vec_spare, unwind = 40, {
    let s = any_slice_min(2);
    let (cap, n, k) = (s.len(), below(s.len()), below(s.len()));
    let x = s[k];
    let v: Vec<u8> = unsafe { Vec::from_raw_parts(s.as_mut_ptr(), n, cap) };
    let b: Bytes<'_> = Bytes::from(v);
    assert!(b.len() == n, "len");
    assert!(k >= n || b.as_slice()[k] == x, "same bytes");
    done(b);
}}
harness!{ pq_from_arc_slice, unwind = 36, {
    let arc: Arc<[u8]> = Arc::from(any_box());
    let s: &'static [u8] = unsafe { core::slice::from_raw_parts(arc.as_ptr(), arc.len()) };
    let b: Bytes<'_> = Bytes::from(arc);
    shows(&b, s); done(b);
}}
harness!{ pq_from_arc_empty, unwind = 36, {
    let arc: Arc<[u8]> = Arc::new([]);
    let b: Bytes<'_> = Bytes::from(arc);
    shows(&b, &[]); done(b);
}}
macro_rules! arcs { ($($n:ident $l:literal)*) => { $(
    harness!{ $n, unwind = 60, {
        let a: [u8; $l] = kani::any();
        let arc: Arc<[u8; $l]> = Arc::new(a);
        let b: Bytes<'_> = Bytes::from(arc);
        shows(&b, &a); done(b);
    }}
)* }}
arcs!{ bq_arc_0 0  bq_arc_3 3  bq_arc_33 33 }

/// A type that shows a part of itself only.
struct Window { all: [u8; 48], lo: usize, hi: usize }
impl AsRef<[u8]> for Window { fn as_ref(&self) -> &[u8] { &self.all[self.lo..self.hi] } }
harness!{ pq_arc_window, unwind = 60, {
    let lo = below(49);
    let w = Window { all: kani::any(), lo, hi: lo + below(49 - lo) };
    let (all, lo, hi) = (w.all, w.lo, w.hi);
    let b: Bytes<'_> = Bytes::from(Arc::new(w));
    shows(&b, &all[lo..hi]); done(b);
}}

// ---- comparisons -----------------------------------------------------------------------------
/// Records what a value feeds to a hasher: addresses, so that nothing has to be read.
#[derive(Default)]
struct Rec { n: usize, seq: [(usize, usize); 4] }
impl Rec { fn put(&mut self, a: usize, b: usize) { self.seq[self.n] = (a, b); self.n += 1; } }
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.put(b.as_ptr() as usize, b.len()) }
    fn write_usize(&mut self, i: usize) { self.put(i, usize::MAX) }
}
fn hashes_like_slice(b: &Bytes<'_>) {
    let (mut x, mut y) = (Rec::default(), Rec::default());
    b.hash(&mut x);
    b.as_slice().hash(&mut y);
    assert!(x.n == y.n && x.n > 0);
    let k = below(x.n);
    assert!(x.seq[k] == y.seq[k], "Hash is that of the slice");
}
harness!{ pq_hash, unwind = 40, {
    let s: &[u8] = any_slice();
    let b = Bytes::from_slice(s);
    hashes_like_slice(&b);
    done(b);
    let b = ghost(any_slice(), any_vt());
    hashes_like_slice(&b);
    done(b);
}}
/// Short operands, each inlined or not.
fn operand(a: &'static [u8]) -> Bytes<'static> {
    if kani::any() { Bytes::inline_slice(a).unwrap() } else { Bytes::from_static(a) }
}
fn small(a: [u8; 3]) -> &'static [u8] { let s: &'static [u8] = Box::leak(Box::new(a)); &s[..below(4)] }
harness!{ bq_compare, unwind = 8, {
    let (x, y) = (small(kani::any()), small(kani::any()));
    let (a, b) = (operand(x), operand(y));
    kani::cover!(x == y && x.len() == 3);
    kani::cover!(x < y && x.len() > y.len());
    assert!((a == b) == (x == y), "==");
    assert!((a == y) == (x == y), "== slice");
    assert!((a != b) == (x != y), "!=");
    assert!(a.partial_cmp(&b) == x.partial_cmp(y), "partial_cmp");
    assert!(a.partial_cmp(&y) == x.partial_cmp(y), "partial_cmp slice");
    assert!(a.cmp(&b) == x.cmp(y), "cmp");
    done(a); done(b);
}}
harness!{ bt_compare_long, unwind = 40, {
    let (x, y): ([u8; 34], [u8; 34]) = (kani::any(), kani::any());
    let (n, m) = (30 + below(5), 30 + below(5));
    let (a, b) = (Bytes::from_slice(&x[..n]), Bytes::from_slice(&y[..m]));
    assert!((a == b) == (x[..n] == y[..m]), "==");
    assert!(a.cmp(&b) == x[..n].cmp(&y[..m]), "cmp");
    done(a); done(b);
}}
