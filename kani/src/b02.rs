//! B02: slicing Bytes agrees with slicing the plain byte slice.
use crate::common::*;
use safer_ffi::bytes::Bytes;
use core::ops::Bound;

fn any_bound() -> Bound<usize> {
    match kani::any::<u8>() % 3 { 0 => Bound::Included(kani::any()), 1 => Bound::Excluded(kani::any()), _ => Bound::Unbounded }
}
/// What a pair of bounds means on a slice of length `n`, in mathematical integers: `None` is a panic.
fn meaning(s: Bound<usize>, e: Bound<usize>, n: usize) -> Option<(usize, usize)> {
    let lo: u128 = match s { Bound::Included(i) => i as u128, Bound::Excluded(i) => i as u128 + 1, Bound::Unbounded => 0 };
    let hi: u128 = match e { Bound::Included(i) => i as u128 + 1, Bound::Excluded(i) => i as u128, Bound::Unbounded => n as u128 };
    if lo <= hi && hi <= n as u128 { Some((lo as usize, hi as usize)) } else { None }
}
/// `b` shows `src[lo..hi]`.
fn check(b: Bytes<'_>, src: &[u8], lo: usize, hi: usize) {
    let v = b.as_slice();
    assert!(b.len() == hi - lo, "len");
    assert!(v.len() == hi - lo, "view length");
    if hi > lo {
        let k = below(hi - lo);
        assert!(v[k] == src[lo + k], "same byte at every index");
    }
    core::mem::forget(b);
}
/// The same for a long result that shares `src`: there is nothing to read, it is the same memory.
fn check_shared(b: Bytes<'_>, src: &[u8], lo: usize, hi: usize) {
    let v = b.as_slice();
    assert!(b.len() == hi - lo, "len");
    assert!(v.len() == hi - lo, "view length");
    assert!(v.as_ptr() == src.as_ptr().wrapping_add(lo), "the very bytes of the source");
    core::mem::forget(b);
}

fn shrink_outline(long: bool, t: fn(Bytes<'_>, &[u8], usize, usize)) {
    let s: &'static [u8] = any_slice_min(33);
    let (lb, hb) = (any_bound(), any_bound());
    let m = meaning(lb, hb, s.len());
    kani::assume(m.is_some());
    let (lo, hi) = m.unwrap();
    kani::assume((hi - lo > 32) == long);
    let mut b = ghost(s, &VT_NONE);
    b.shrink_to((lb, hb));
    t(b, s, lo, hi);
}
harness!{ pq_shrink_outline_long, unwind = 36, { shrink_outline(true, check_shared) }}
harness!{ pq_shrink_outline_short, unwind = 36, { shrink_outline(false, check) }}
harness!{ pq_shrink_inline, unwind = 36, {
    let a: [u8; 32] = kani::any();
    let n = below(33);
    let s = &a[..n];
    let (lb, hb) = (any_bound(), any_bound());
    let m = meaning(lb, hb, n);
    kani::assume(m.is_some());
    let (lo, hi) = m.unwrap();
    let b = Bytes::from_slice(s).subsliced((lb, hb));
    kani::cover!(hi - lo == 32);
    check(b, s, lo, hi);
}}
panics!{ pq_shrink_inline_oob, unwind = 36, {
    let a: [u8; 32] = kani::any();
    let n = below(33);
    let s = &a[..n];
    let (lb, hb) = (any_bound(), any_bound());
    kani::assume(meaning(lb, hb, n).is_none());
    let mut b = Bytes::from_slice(s);
    b.shrink_to((lb, hb));
    core::mem::forget(b);
}}
panics!{ pq_shrink_outline_oob, unwind = 36, {
    let s: &[u8] = any_slice_min(33);
    let (lb, hb) = (any_bound(), any_bound());
    kani::assume(meaning(lb, hb, s.len()).is_none());
    let mut b = Bytes::from_slice(s);
    b.shrink_to((lb, hb));
    core::mem::forget(b);
}}
// The range types of the standard library mean what they mean for slices.
macro_rules! forms { ($($n:ident $m:ident: |$b:ident, $lo:ident, $hi:ident, $s:ident| $e:expr, $l:expr, $h:expr;)*) => { $(
    harness!{ $n, unwind = 36, {
        let $s: &'static [u8] = any_slice_min(33);
        let ($lo, $hi) = (kani::any::<usize>(), kani::any::<usize>());
        kani::assume($lo <= $hi && $hi < $s.len());
        let $b = ghost($s, &VT_NONE);
        let (l, h) = ($l, $h);
        kani::assume(h - l > 32);
        check_shared($e, $s, l, h);
    }}
)* }}
forms!{
    pq_form_range l: |b, lo, hi, s| b.subsliced(lo..hi), lo, hi;
    pq_form_from l: |b, lo, hi, s| b.subsliced(lo..), lo, s.len();
    pq_form_to l: |b, lo, hi, s| b.subsliced(..hi), 0, hi;
    pq_form_full l: |b, lo, hi, s| b.subsliced(..), 0, s.len();
    pq_form_inclusive l: |b, lo, hi, s| b.subsliced(lo..=hi), lo, hi + 1;
    pq_form_to_inclusive l: |b, lo, hi, s| b.subsliced(..=hi), 0, hi + 1;
}
// Slicing what was already sliced.
fn shrink_again(long: bool, t: fn(Bytes<'_>, &[u8], usize, usize)) {
    let s: &'static [u8] = any_slice_min(33);
    let (a, b) = (kani::any::<usize>(), kani::any::<usize>());
    kani::assume(a <= b && b <= s.len() && b - a > 32);
    let (c, d) = (kani::any::<usize>(), kani::any::<usize>());
    kani::assume(c <= d && d <= b - a && (d - c > 32) == long);
    let x = ghost(s, &VT_NONE).subsliced(a..b).subsliced(c..d);
    t(x, s, a + c, a + d);
}
harness!{ pq_shrink_again_long, unwind = 36, { shrink_again(true, check_shared) }}
harness!{ pt_shrink_again_short, unwind = 36, { shrink_again(false, check) }}

fn split(vt: &'static safer_ffi::bytes::BytesVt, left_long: bool, right_long: bool) {
    let s: &'static [u8] = any_slice_min(33);
    let i: usize = kani::any();
    kani::assume(i <= s.len() && (i > 32) == left_long && (s.len() - i > 32) == right_long);
    match ghost(s, vt).split_at(i) {
        Ok((l, r)) => {
            if left_long { check_shared(l, s, 0, i) } else { check(l, s, 0, i) }
            if right_long { check_shared(r, s, i, s.len()) } else { check(r, s, i, s.len()) }
        }
        Err(_) => panic!("an index within bounds was refused"),
    }
}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] pq_split_long_long, unwind = 36, { split(&VT_FULL, true, true) }}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] pq_split_long_long_borrowed, unwind = 36, { split(&VT_RETAIN, true, true) }}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] pq_split_short_long, unwind = 36, { split(&VT_NONE, false, true) }}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] pq_split_long_short, unwind = 36, { split(&VT_NONE, true, false) }}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] pq_split_short_short, unwind = 36, { split(&VT_NONE, false, false) }}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] pq_split_beyond, unwind = 36, {
    let s: &'static [u8] = any_slice_min(33);
    let i: usize = kani::any();
    kani::assume(i > s.len());
    match ghost(s, any_vt()).split_at(i) {
        Ok(_) => panic!("an index out of bounds was accepted"),
        Err(b) => check_shared(b, s, 0, s.len()),
    }
}}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] pq_split_inline, unwind = 36, {
    let a: [u8; 32] = kani::any();
    let n = below(33);
    let i: usize = kani::any();
    let b = Bytes::inline_slice(&a[..n]).unwrap();
    match b.split_at(i) {
        Ok((l, r)) => { assert!(i <= n); check(l, &a, 0, i); check(r, &a, i, n); }
        Err(b) => { assert!(i > n); check(b, &a, 0, n); }
    }
}}
// Not shareable: the split has to copy first (the copy is replaced by its contract).
fn split_copying(s: &'static [u8], vt: &'static safer_ffi::bytes::BytesVt) {
    let i: usize = kani::any();
    kani::assume(i > 32 && i <= s.len() && s.len() - i > 32);
    any_at();
    let k = at();
    match ghost(s, vt).split_at(i) {
        Ok((l, r)) => {
            assert!(l.len() == i && r.len() == s.len() - i, "lengths");
            assert!(l.as_slice().len() == i && r.as_slice().len() == s.len() - i, "view lengths");
            if k < i { assert!(l.as_slice()[k] == s[k], "left") }
            else if k < s.len() { assert!(r.as_slice()[k - i] == s[k], "right") }
            core::mem::forget((l, r));
        }
        Err(_) => panic!("an index within bounds was refused"),
    }
}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::copied)]
    pt_split_copying, unwind = 36, { split_copying(any_slice_min(33), &VT_RELEASE) }}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::copied)]
    bq_split_copying, unwind = 36, {
        let a: &'static [u8; 70] = Box::leak(Box::new(kani::any()));
        split_copying(&a[..66 + below(5)], &VT_RELEASE)
    }}
// io::Read: what it gives is a prefix, what it keeps is the rest.
fn read(mut b: Bytes<'_>, s: &[u8], buf: &mut [u8]) {
    use std::io::Read;
    let old = if buf.len() > 0 { Some(below(buf.len())) } else { None };
    let before = old.map(|k| buf[k]);
    if let Some(k) = old { unsafe { WATCH.0 = &buf[k] } }
    let n = match b.read(buf) { Ok(n) => n, Err(_) => panic!("reading bytes cannot fail") };
    assert!(n == usize::min(s.len(), buf.len()), "as much as fits");
    if let Some(k) = old {
        if k < n { assert!(buf[k] == s[k], "prefix") } else { assert!(Some(buf[k]) == before, "rest untouched") }
    }
    check(b, s, n, s.len());
}
harness!{ #[kani::stub(<[u8]>::copy_from_slice, crate::common::c_copy_from_slice)] pq_read_inline, unwind = 36, {
    let a: [u8; 32] = kani::any();
    let mut buf: [u8; 34] = kani::any();
    let m = below(35);
    let s = &a[..below(33)];
    read(Bytes::from_slice(s), s, &mut buf[..m]);
}}
harness!{ #[kani::stub(<[u8]>::copy_from_slice, crate::common::c_copy_from_slice)] pq_read_outline, unwind = 36, {
    let s: &'static [u8] = any_slice_min(33);
    read(ghost(s, any_vt()), s, any_slice());
}}
