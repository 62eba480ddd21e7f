//! L04: optional values.  Oracle: `Option` itself, on the raw bits.
use crate::common::TAG;
use safer_ffi::closure::{BoxDynFnMut1};
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, ReprC};
use safer_ffi::option::TaggedOption;
use safer_ffi::prelude::*;
use safer_ffi::ptr::{NonNullMut, NonNullOwned, NonNullRef};
use safer_ffi::slice::{slice_boxed, slice_mut, slice_raw, slice_ref};
use safer_ffi::string::{str_boxed, str_ref};
use core::mem::{align_of, size_of, transmute_copy};

fn raw<T: ReprC, Bits: Copy>(b: Bits) -> CLayoutOf<T> {
    assert!(size_of::<CLayoutOf<T>>() == size_of::<Bits>(), "harness: size of the raw bits");
    unsafe { transmute_copy(&b) }
}
/// Decides `Option<T>` on arbitrary words, the first of which is the pointer.
fn option<T, const N: usize>(align: usize) where T: ReprC, Option<T>: ReprC<CLayout = T::CLayout> {
    let w: [usize; N] = kani::any();
    let legal = w[0] == 0 || w[0] % align == 0;
    assert!(<Option<T> as ReprC>::is_valid(&raw::<Option<T>, _>(w)) == legal, "null, or a legal value of the inner type");
    assert!((w[0] != 0 && legal) == T::is_valid(&raw::<T, _>(w)), "of the inner type");
    match unsafe { from_raw::<Option<T>>(raw::<Option<T>, _>(w)) } {
        None => assert!(!legal, "refused only if illegal"),
        Some(o) => {
            assert!(legal && o.is_none() == (w[0] == 0), "None exactly when null");
            let some = o.is_some();
            let back: [usize; N] = unsafe { transmute_copy(&into_raw(o)) };
            assert!(back[0] == w[0], "the same pointer");
            if some {
                let mut i = 1;
                while i < N { assert!(back[i] == w[i], "the same value"); i += 1; }
            }
        }
    }
    let none: [usize; N] = unsafe { transmute_copy(&into_raw::<Option<T>>(None)) };
    assert!(none[0] == 0, "None is null in C");
    if w[0] != 0 && legal {
        let t = unsafe { from_raw_unchecked::<T>(raw::<T, _>(w)) };
        let back: [usize; N] = unsafe { transmute_copy(&into_raw(Some(t))) };
        assert!(back == w, "Some(t) is t in C");
    }
}
macro_rules! options { ($($n:ident: $A:expr, $N:literal, $($T:ty),*;)*) => { $( harness! { $n, unwind = 34, { $( option::<$T, $N>($A); )* }} )* }}
options! {
    pq_refs_u8: 1, 1, &'static u8, &'static mut u8, core::ptr::NonNull<u8>, NonNullRef<u8>, NonNullMut<u8>, NonNullOwned<u8>, Out<'static, u8>;
    pq_refs_u64: 8, 1, &'static u64, &'static mut u64, core::ptr::NonNull<u64>, NonNullRef<u64>, NonNullMut<u64>, NonNullOwned<u64>, Out<'static, u64>;
    pq_box: 8, 1, repr_c::Box<u64>;
    pq_box_u8: 1, 1, repr_c::Box<u8>;
    pq_char_p: 1, 1, char_p::Ref<'static>, char_p::Raw;
    pq_char_p_box: 1, 1, char_p::Box;
    pq_fn: 1, 1, extern "C" fn(), unsafe extern "C" fn(u8) -> u64, extern "C" fn(u8, u16) -> u32;
    pq_slices_u8: 1, 2, slice_raw<u8>, slice_ref<'static, u8>, slice_mut<'static, u8>;
    pq_slices_u64: 8, 2, slice_raw<u64>, slice_ref<'static, u64>, slice_mut<'static, u64>;
    pq_slice_boxed: 8, 2, slice_boxed<u64>;
    pq_strs: 1, 2, str_ref<'static>;
    pq_str_boxed: 1, 2, str_boxed;
    pq_vec: 4, 3, repr_c::Vec<u32>;
    pq_string: 1, 3, repr_c::String;
    pq_transparent: 8, 1, Wrapped<'static>;
}
#[derive_ReprC]
#[repr(transparent)]
pub struct Wrapped<'a>(&'a u64);

/// Any raw value of an optional closure: null, or a closure (all of whose words are non-null).
harness! { pq_closure, unwind = 6, {
    type B = BoxDynFnMut1<u8, u8>;
    let none: [usize; 3] = unsafe { transmute_copy(&into_raw::<Option<B>>(None)) };
    assert!(none[0] == 0);
    assert!(unsafe { from_raw::<Option<B>>(raw::<Option<B>, _>(none)) }.unwrap().is_none());
    let b: B = Box::new(|x: u8| x ^ 1).into();
    let r = unsafe { into_raw(Some(b)) };
    let w: [usize; 3] = unsafe { transmute_copy(&r) };
    assert!(w[0] != 0);
    let mut b = unsafe { from_raw::<Option<B>>(r) }.unwrap().unwrap();
    assert!(b.call(4) == 5);
}}

// ---------------------------------------------------------------------------------------------
static mut DROPS: (i64, u64) = (0, TAG);
fn drops() -> i64 { unsafe { DROPS.0 } }
#[derive(PartialEq)]
pub struct Tracked(u64);
impl Drop for Tracked { fn drop(&mut self) { unsafe { DROPS.0 += 1; } } }

/// Option -> TaggedOption -> Option, and every accessor, for any value.
fn tagged<T: Copy + PartialEq>(o: Option<T>, other: T) {
    let t: TaggedOption<T> = o.into();
    assert!(matches!((&t, o), (TaggedOption::None, None)) || matches!((&t, o), (TaggedOption::Some(x), Some(y)) if *x == y), "the same variant and value");
    assert!(unsafe { transmute_copy::<_, u8>(&t) } == o.is_some() as u8, "the tag");
    assert!(Option::from(t) == o, "and back");
    assert!(t.into_rust() == o, "into_rust");
    assert!(t.as_ref().copied() == o, "as_ref");
    let mut m = t;
    if let Some(x) = m.as_ref() { assert!(x as *const T as usize >= &m as *const _ as usize && (x as *const T as usize) <= &m as *const _ as usize + size_of::<TaggedOption<T>>(), "the payload itself") }
    assert!(m.as_mut().is_some() == o.is_some());
    if let Some(x) = m.as_mut() { *x = other; }
    assert!(m.into_rust() == o.map(|_| other), "as_mut");
    let mut m = t;
    let taken = m.take();
    assert!(taken.into_rust() == o && m.into_rust().is_none(), "take");
    assert!(t.unwrap_or_else(|| other) == o.unwrap_or(other), "unwrap_or_else");
    let mut defaults = 0;
    let mut maps = 0;
    let r = t.map_or_else(|| { defaults += 1; 7u8 }, |x| { maps += 1; assert!(Some(x) == o); 9 });
    assert!(r == if o.is_some() { 9 } else { 7 } && defaults == o.is_none() as i32 && maps == o.is_some() as i32, "map_or_else");
    let mut calls = 0;
    let keep: bool = kani::any();
    let r: TaggedOption<u16> = t.and_then(|x| { calls += 1; assert!(Some(x) == o); if keep { TaggedOption::Some(3) } else { TaggedOption::None } });
    assert!(r.into_rust() == if o.is_some() && keep { Some(3) } else { None } && calls == o.is_some() as i32, "and_then");
    assert!(TaggedOption::from(other).into_rust() == Some(other), "from the value");
    let c = t.clone();
    assert!(c.into_rust() == o && c == t);
}
fn any_option<T: kani::Arbitrary>() -> Option<T> { if kani::any() { Some(kani::any()) } else { None } }
macro_rules! taggeds { ($($n:ident: $T:ty;)*) => { $( harness! { $n, unwind = 34, { tagged::<$T>(any_option(), kani::any()); }} )* }}
taggeds! { pq_tagged_u8: u8; pq_tagged_bool: bool; pq_tagged_u16: u16; pq_tagged_u64: u64; pq_tagged_i32: i32; pq_tagged_array: [u16; 3]; pq_tagged_unit: (); }
harness! { pq_tagged_struct, unwind = 4, {
    let f = |n, x| Padded { n, x };
    tagged::<Padded>(any_option::<(u8, u64)>().map(|(n, x)| f(n, x)), f(kani::any(), kani::any()));
}}
harness! { pq_tagged_nested, unwind = 4, {
    let x: Option<u8> = any_option();
    let t: TaggedOption<TaggedOption<u8>> = TaggedOption::Some(x.into());
    assert!(t.into_rust().unwrap().into_rust() == x);
}}
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy, PartialEq)]
pub struct Padded { n: u8, x: u64 }

/// No destructor runs twice or is skipped.
harness! { pq_tagged_drops, unwind = 2, {
    let n: u64 = kani::any();
    let t: TaggedOption<Tracked> = Some(Tracked(n)).into();
    assert!(drops() == 0);
    let mut t: TaggedOption<Tracked> = TaggedOption::from(t.into_rust());
    assert!(drops() == 0 && t.as_ref().unwrap().0 == n && t.as_mut().unwrap().0 == n);
    let u = t.take();
    assert!(drops() == 0 && t.as_ref().is_none());
    drop(t);
    assert!(drops() == 0);
    let o: Option<Tracked> = u.into();
    assert!(drops() == 0 && o.as_ref().unwrap().0 == n);
    let t = TaggedOption::from(o.unwrap());
    let x = t.unwrap_or_else(|| Tracked(1));
    assert!(drops() == 0 && x.0 == n);
    let t = TaggedOption::Some(x);
    let x = t.map_or_else(|| Tracked(2), |x| x);
    assert!(drops() == 0 && x.0 == n);
    let t = TaggedOption::Some(x).and_then(|x| { assert!(x.0 == n); TaggedOption::Some(x) });
    assert!(drops() == 0);
    drop(t);
    assert!(drops() == 1, "dropped once");
    let t = TaggedOption::Some(Tracked(n));
    drop(t.and_then(|_| TaggedOption::<u8>::None));
    assert!(drops() == 2);
    let x = TaggedOption::<Tracked>::None.unwrap_or_else(|| Tracked(8));
    assert!(drops() == 2 && x.0 == 8);
    drop(x);
    assert!(drops() == 3);
    drop(TaggedOption::<Tracked>::None);
    assert!(drops() == 3);
}}

/// The raw form: tag 0 whatever the payload, tag 1 with a legal payload, nothing else.
fn tagged_raw<T: ReprC, P: Copy + kani::Arbitrary>(legal: impl Fn(P) -> bool) where TaggedOption<T>: ReprC {
    #[repr(C)]
    #[derive(Clone, Copy)]
    struct Raw<P> { tag: u8, payload: P }
    let r = Raw { tag: kani::any(), payload: kani::any::<P>() };
    let c: CLayoutOf<TaggedOption<T>> = raw::<TaggedOption<T>, Raw<P>>(r);
    let ok = r.tag == 0 || (r.tag == 1 && legal(r.payload));
    assert!(<TaggedOption<T> as ReprC>::is_valid(&c) == ok, "only the two tags, and a legal payload");
    match unsafe { from_raw::<TaggedOption<T>>(c) } {
        None => assert!(!ok, "refused only if illegal"),
        Some(t) => {
            assert!(ok && matches!(t, TaggedOption::Some(_)) == (r.tag == 1), "the variant of the tag");
            let back: Raw<P> = unsafe { transmute_copy(&into_raw(t)) };
            assert!(back.tag == r.tag, "the same tag");
        }
    }
}
harness! { pq_tagged_raw_u8, unwind = 2, { tagged_raw::<u8, u8>(|_| true) }}
harness! { pq_tagged_raw_bool, unwind = 2, { tagged_raw::<bool, u8>(|b| b < 2) }}
harness! { pq_tagged_raw_u16, unwind = 2, { tagged_raw::<u16, u16>(|_| true) }}
harness! { pq_tagged_raw_u64, unwind = 2, { tagged_raw::<u64, u64>(|_| true) }}
harness! { pq_tagged_raw_ref, unwind = 2, { tagged_raw::<&'static u64, usize>(|a| a != 0 && a % 8 == 0) }}
harness! { pq_tagged_raw_array, unwind = 6, { tagged_raw::<[bool; 3], [u8; 3]>(|a| a[0] < 2 && a[1] < 2 && a[2] < 2) }}
#[derive_ReprC]
#[repr(u16)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { A = 3, B = 500, C }
harness! { pq_tagged_raw_enum, unwind = 2, { tagged_raw::<Kind, u16>(|a| a == 3 || a == 500 || a == 501) }}
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Deep { n: u64, flag: bool }
harness! { pq_tagged_raw_struct, unwind = 2, {
    let (tag, n, flag): (u8, u64, u8) = kani::any();
    let c = <CLayoutOf<TaggedOption<Deep>>>::from_parts(tag, n, flag);
    let ok = tag == 0 || (tag == 1 && flag < 2);
    assert!(<TaggedOption<Deep> as ReprC>::is_valid(&c) == ok);
    if let Some(TaggedOption::Some(d)) = unsafe { from_raw::<TaggedOption<Deep>>(c) } { assert!(tag == 1 && d.n == n && d.flag == (flag == 1)) }
}}
trait FromParts { fn from_parts(tag: u8, n: u64, flag: u8) -> Self; }
impl FromParts for CLayoutOf<TaggedOption<Deep>> {
    fn from_parts(tag: u8, n: u64, flag: u8) -> Self {
        #[repr(C)] struct Raw { tag: u8, n: u64, flag: u8 }
        assert!(size_of::<Raw>() == size_of::<Self>() && align_of::<Raw>() == align_of::<Self>());
        unsafe { transmute_copy(&Raw { tag, n, flag }) }
    }
}
/// The payload is looked at only when the tag says Some.
static mut LOOKED: (bool, u64) = (false, TAG);
#[repr(transparent)]
pub struct Spy(u32);
unsafe impl ReprC for Spy {
    type CLayout = u32;
    fn is_valid(it: &u32) -> bool { unsafe { LOOKED.0 = true; } *it != 5 }
}
harness! { pq_tagged_looks, unwind = 2, {
    #[repr(C)]
    struct Raw { tag: u8, payload: u32 }
    let (tag, payload) = kani::any();
    let c: CLayoutOf<TaggedOption<Spy>> = unsafe { core::mem::transmute(Raw { tag, payload }) };
    let ok = <TaggedOption<Spy> as ReprC>::is_valid(&c);
    assert!(unsafe { LOOKED.0 } == (tag == 1), "looked at exactly when Some");
    assert!(ok == (tag == 0 || (tag == 1 && payload != 5)));
}}
