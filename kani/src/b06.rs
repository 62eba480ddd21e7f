//! B06: downcasting Bytes to an Arc succeeds only for the whole original Arc.
use crate::common::*;
use safer_ffi::bytes::Bytes;
use std::sync::Arc;

fn refused(b: Bytes<'_>, s: &[u8]) {
    let (p, n) = (b.as_slice().as_ptr(), b.len());
    let inside = views(b.as_slice(), s);
    match Arc::<[u8]>::try_from(b) {
        Ok(a) => { core::mem::forget(a); panic!("something else was taken for an Arc<[u8]>") }
        Err(b) => {
            assert!(b.len() == n, "the same value comes back");
            if inside { assert!(b.as_slice().as_ptr() == p, "the same value comes back") }
            same(b.as_slice(), s);
            core::mem::forget(b);
        }
    }
}
// Values that no Arc<[u8]> backs: any other owner, any length, even one whose owner word looks right.
harness!{ pq_other_owner, unwind = 36, {
    let s: &'static [u8] = any_slice();
    let vt = any_vt();
    refused(ghost(s, vt), s);
    assert!(live() == 1 && retained() == 0 && released() == 0, "ownership untouched");
}}
harness!{ pq_other_owner_alike, unwind = 36, {
    let s: &'static [u8] = any_slice();
    let b = unsafe { LIVE.0 = 1; OWNER.0 = s.as_ptr() as usize; CAP.0 = s.len(); Bytes::from_raw_parts(s, s.as_ptr().cast(), s.len(), any_vt()) };
    refused(b, s);
    assert!(live() == 1 && retained() == 0 && released() == 0, "ownership untouched");
}}
harness!{ pq_borrowed, unwind = 36, {
    let s: &'static [u8] = any_slice();
    refused(Bytes::from_slice(s), s);
    refused(Bytes::from_static(s), s);
}}
harness!{ pq_inlined, unwind = 36, {
    let a: [u8; 32] = kani::any();
    let s = &a[..below(33)];
    refused(Bytes::inline_slice(s).unwrap(), s);
}}
harness!{ pq_box, unwind = 36, {
    let bx = any_box();
    let s: &'static [u8] = unsafe { core::slice::from_raw_parts(bx.as_ptr(), bx.len()) };
    refused(Bytes::from(bx), s);
}}
harness!{ pq_arc_of_type, unwind = 60, {
    let arc: Arc<[u8; 40]> = Arc::new(kani::any());
    let keep = arc.clone();
    refused(Bytes::from(arc), &keep[..]);
    assert!(Arc::strong_count(&keep) == 2);
}}
harness!{ pq_arc_any_length, unwind = 36, {
    let arc: Arc<[u8]> = Arc::from(any_box());
    let (p, n) = (arc.as_ptr(), arc.len());
    let b: Bytes<'_> = Bytes::from(arc);
    match Arc::<[u8]>::try_from(b) {
        Ok(a) => { assert!(a.as_ptr() == p && a.len() == n, "that same Arc"); assert!(Arc::strong_count(&a) == 1, "count unchanged"); core::mem::forget(a) }
        Err(_) => panic!("a whole Arc was refused"),
    }
}}
macro_rules! whole { ($($n:ident $l:literal)*) => { $(
    harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] $n, unwind = 60, {
        let a: [u8; $l] = kani::any();
        let arc: Arc<[u8]> = Arc::new(a);
        let keep = arc.clone();
        let b: Bytes<'_> = Bytes::from(arc);
        let c = b.clone();
        let d = if kani::any() { c.upgrade() } else { match c.noalloc_upgrade() { Ok(d) => d, Err(_) => panic!("owned") } };
        assert!(Arc::strong_count(&keep) == 3);
        match Arc::<[u8]>::try_from(d) {
            Ok(x) => { assert!(x.as_ptr() == keep.as_ptr() && x.len() == $l); assert!(Arc::strong_count(&keep) == 3); core::mem::forget(x) }
            Err(_) => panic!("a clone of a whole Arc was refused"),
        }
        match Arc::<[u8]>::try_from(b) {
            Ok(x) => { assert!(x.as_ptr() == keep.as_ptr() && x.len() == $l); assert!(Arc::strong_count(&keep) == 3); core::mem::forget(x) }
            Err(_) => panic!("a whole Arc was refused"),
        }
    }}
)* }}
whole!{ bq_whole_0 0  bq_whole_1 1  bq_whole_20 20  bq_whole_40 40 }
// Narrowed on either side, but still viewing the Arc: refused, and the value and count are as before.
harness!{ bq_narrowed, unwind = 90, {
    let a: [u8; 80] = kani::any();
    let arc: Arc<[u8]> = Arc::new(a);
    let keep = arc.clone();
    let b: Bytes<'_> = Bytes::from(arc);
    let (lo, hi) = (below(81), below(81));
    kani::assume(lo <= hi && hi - lo < 80);
    kani::cover!(lo == 0 && hi == 79);
    kani::cover!(lo == 1 && hi == 80);
    let b = b.subsliced(lo..hi);
    let n = Arc::strong_count(&keep);
    match Arc::<[u8]>::try_from(b) {
        Ok(x) => { core::mem::forget(x); panic!("a narrowed value was taken for the whole Arc") }
        Err(b) => {
            assert!(Arc::strong_count(&keep) == n, "count unchanged");
            same(b.as_slice(), &a[lo..hi]);
            core::mem::forget(b);
        }
    }
}}
harness!{ #[kani::stub(safer_ffi::bytes::Bytes::copied_from_slice, crate::common::C::no_copy)] bq_split_parts, unwind = 90, {
    let a: [u8; 80] = kani::any();
    let arc: Arc<[u8]> = Arc::new(a);
    let keep = arc.clone();
    let b: Bytes<'_> = Bytes::from(arc);
    let i = 33 + below(15);
    match b.split_at(i) {
        Ok((l, r)) => {
            let n = Arc::strong_count(&keep);
            refused(l, &a[..i]);
            refused(r, &a[i..]);
            assert!(Arc::strong_count(&keep) == n, "count unchanged");
        }
        Err(_) => panic!("refused"),
    }
}}
// What had to be copied, and was too long to be inlined, converts.
harness!{ bq_copied, unwind = 60, {
    let a: [u8; 40] = kani::any();
    let u = Bytes::from_slice(&a).upgrade();
    match Arc::<[u8]>::try_from(u) {
        Ok(x) => { same(&x, &a); assert!(Arc::strong_count(&x) == 1); core::mem::forget(x) }
        Err(_) => panic!("an upgraded copy was refused"),
    }
    let bx: Box<[u8]> = Box::new(a);
    let b: Bytes<'_> = Bytes::from(bx);
    match Arc::<[u8]>::try_from(b.clone()) {
        Ok(x) => { same(&x, &a); assert!(Arc::strong_count(&x) == 1); core::mem::forget(x) }
        Err(_) => panic!("a copied clone was refused"),
    }
    core::mem::forget(b);
}}
