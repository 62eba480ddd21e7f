//! C02: reading C strings back, handing them back, cloning and dropping them (CBMC's leak check is on).
//! The memory of a text ends right at its terminator, so a read past it is a failed obligation.
use crate::common::*;
use safer_ffi::prelude::*;
use safer_ffi::char_p::{char_p_boxed, char_p_ref};
use std::ffi::CString;

fn c_box(b: &char_p_boxed) -> *const u8 { unsafe { core::mem::transmute_copy(b) } }
/// `N` arbitrary bytes without NUL (each standing alone in UTF-8).
fn text<const N: usize>() -> [u8; N] {
    let t: [u8; N] = kani::any();
    let mut k = 0;
    while k < N { kani::assume(t[k] != 0 && t[k] < 0x80); k += 1 }
    t
}
fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    let mut k = 0;
    while k < a.len() { if a[k] != b[k] { return false; } k += 1 }
    true
}
/// The text, followed by its terminator, in memory of exactly that size.
fn memory<const N: usize>(t: &[u8; N]) -> Box<[u8]> {
    if N == 0 { return Box::new([0]); }
    let mut v = Vec::with_capacity(N + 1);
    v.extend_from_slice(t);
    v.push(0);
    v.into_boxed_slice()
}
unsafe fn handle(m: &[u8]) -> char_p_ref<'_> { char_p_ref::from_ptr_unchecked(core::ptr::NonNull::new_unchecked(m.as_ptr() as *mut u8)) }

fn read<const N: usize>() { read_of(text::<N>()) }
fn read_of<const N: usize>(t: [u8; N]) {
    let m = memory(&t);
    let r = unsafe { handle(&m) };
    assert!(eq(r.to_bytes(), &t), "to_bytes");
    assert!(r.to_bytes().as_ptr() == m.as_ptr(), "to_bytes is a view");
    assert!(eq(r.to_bytes_with_null(), &m), "to_bytes_with_null");
    assert!(r.to_bytes_with_null().as_ptr() == m.as_ptr(), "to_bytes_with_null is a view");
    let nz = r.to_nonzero_bytes();
    assert!(nz.len() == N && nz.as_ptr() as *const u8 == m.as_ptr(), "to_nonzero_bytes");
    assert!(eq(r.to_str().as_bytes(), &t) && r.to_str().as_ptr() == m.as_ptr(), "to_str");
    assert!(eq(r.to_str_with_null().as_bytes(), &m), "to_str_with_null");
    let mut it = r.bytes();
    let mut k = 0;
    while k < N { assert!(it.next().map(|b| b.get()) == Some(t[k]), "bytes"); k += 1 }
    assert!(it.next().is_none() && it.next().is_none(), "bytes ends at the terminator and stays there");
}
harness! { pq_read_0, unwind = 8, { read::<0>() }}
harness! { bq_read_1, unwind = 8, { read::<1>() }}
harness! { bq_read_2, unwind = 8, { read::<2>() }}
harness! { bq_read_4, unwind = 8, { read::<4>() }}
harness! { bt_read_12, unwind = 16, { read::<12>() }}

// Bytes behind the terminator are no part of the text.
harness! { bq_stops_at_nul, unwind = 8, {
    let t = text::<2>();
    let m = [t[0], t[1], 0, kani::any(), kani::any()];
    let r = unsafe { handle(&m) };
    assert!(eq(r.to_bytes(), &t) && r.to_bytes_with_null().len() == 3 && r.bytes().count() == 2);
    assert!(eq(r.to_str().as_bytes(), &t) && r.to_str_with_null().len() == 3 && r.to_nonzero_bytes().len() == 2);
}}
harness! { pq_empty, unwind = 4, {
    let r = char_p_ref::EMPTY;
    assert!(r.to_bytes().len() == 0 && r.to_bytes_with_null() == [0] && r.to_str().len() == 0 && r.bytes().next().is_none());
}}

fn compare<const N: usize, const M: usize>() {
    compare_of(text::<N>(), text::<M>())
}
fn compare_of<const N: usize, const M: usize>(t: [u8; N], u: [u8; M]) {
    let (m, n) = (memory(&t), memory(&u));
    let (a, b) = unsafe { (handle(&m), handle(&n)) };
    assert!((a == b) == eq(&t, &u), "== agrees with the texts");
    assert!(a == a);
}
harness! { bq_compare_2_2, unwind = 8, { compare::<2, 2>() }}
harness! { bq_compare_1_2, unwind = 8, { compare::<1, 2>() }}
harness! { bq_compare_0_1, unwind = 8, { compare_of([], text::<1>()) }}
harness! { bq_compare_boxed, unwind = 8, {
    let (t, u) = (text::<1>(), text::<1>());
    let (a, b) = (boxed(&t), boxed(&u));
    assert!((a == b) == (t[0] == u[0]), "== agrees with the texts");
}}

/// An owned handle; `CString` is its other source.
fn boxed<const N: usize>(t: &[u8; N]) -> char_p_boxed {
    let mut v = Vec::with_capacity(N);
    v.extend_from_slice(t);
    match char_p_boxed::try_from(unsafe { String::from_utf8_unchecked(v) }) {
        Ok(b) => b,
        Err(_) => panic!("refused"),
    }
}
fn owned_read<const N: usize>() { owned_read_of(text::<N>()) }
fn owned_read_of<const N: usize>(t: [u8; N]) {
    let b = boxed(&t);
    assert!(b.to_bytes().as_ptr() == c_box(&b) && eq(b.to_bytes(), &t), "to_bytes");
    assert!(b.to_bytes_with_null().len() == N + 1 && b.to_bytes_with_null()[N] == 0, "to_bytes_with_null");
    assert!(eq(b.to_str().as_bytes(), &t) && b.to_str_with_null().len() == N + 1, "to_str");
    assert!(b.to_nonzero_bytes().len() == N && b.bytes().count() == N, "the other views");
    drop(b);
}
harness! { pq_owned_read_0, unwind = 8, {
    let b = boxed(&[]);
    assert!(b.to_bytes().len() == 0 && b.to_bytes_with_null() == [0] && b.to_str().len() == 0 && b.to_str_with_null().len() == 1);
    assert!(b.to_nonzero_bytes().len() == 0 && b.bytes().next().is_none());
}}
harness! { bq_owned_read_1, unwind = 8, { owned_read::<1>() }}
harness! { bq_owned_read_3, unwind = 8, { owned_read::<3>() }}

fn into<const N: usize>() {
    let t = text::<N>();
    let b = boxed(&t);
    if kani::any() {
        let v = b.into_vec();
        assert!(eq(&v, &t), "into_vec");
    } else {
        let s = b.into_string();
        assert!(eq(s.as_bytes(), &t), "into_string");
    }
}
harness! { pq_into_0, unwind = 8, {
    assert!(boxed(&[]).into_vec().len() == 0);
    assert!(boxed(&[]).into_string().len() == 0);
}}
harness! { bq_into_1, unwind = 8, { into::<1>() }}
harness! { bq_into_3, unwind = 8, { into::<3>() }}

// The text is fixed here: copying a symbolic number of bytes is what makes these expensive.
fn cloned<const N: usize>(t: [u8; N]) {
    let b = boxed(&t);
    let c = if kani::any() { b.clone() } else { b.to_owned() };
    assert!(eq(c.to_bytes(), &t), "same text");
    assert!(N == 0 || c_box(&c) != c_box(&b), "an independent copy");
    if kani::any() {
        drop(b);
        assert!(eq(c.to_bytes(), &t), "the copy outlives the original");
    } else {
        drop(c);
        assert!(eq(b.to_bytes(), &t), "the original outlives the copy");
    }
}
harness! { pq_clone_0, unwind = 8, {
    let b = boxed(&[]);
    let c = b.clone();
    drop(b);
    assert!(c.to_bytes().len() == 0 && c.to_bytes_with_null() == [0]);
    let d = c.to_owned();
    drop(d);
    assert!(c.to_bytes().len() == 0 && c.to_bytes_with_null() == [0]);
}}
harness! { bq_clone_1, unwind = 8, { cloned([7]) }}
harness! { bq_clone_2, unwind = 8, { cloned(*b"ab") }}

// The sentinel of empty text: shared, and never freed.
harness! { pq_sentinel, unwind = 4, {
    let a = boxed(&[]);
    let b = boxed(&[0]);
    assert!(c_box(&a) == c_box(&b), "shared");
    drop(a);
    assert!(b.to_bytes().len() == 0 && b.to_bytes_with_null() == [0], "still there");
    assert!(b.clone().into_vec().len() == 0);
    assert!(b.into_string().len() == 0);
    assert!(boxed(&[]).to_bytes_with_null() == [0], "still there");
}}
// Terminated input: the terminator is not doubled, and no memory stays behind.
harness! { bq_terminated, unwind = 8, {
    let t = text::<1>();
    let b = boxed(&[t[0], 0]);
    assert!(eq(b.to_bytes(), &t));
    let v = b.into_vec();
    assert!(eq(&v, &t));
}}
harness! { bq_refused, unwind = 8, {
    let t = [kani::any(), 0, 1 + kani::any::<u8>() % 100];
    let mut v = Vec::with_capacity(3);
    v.extend_from_slice(&t);
    kani::assume(t[0] < 0x80);
    match char_p_boxed::try_from(unsafe { String::from_utf8_unchecked(v) }) {
        Ok(_) => panic!("accepted"),
        Err(e) => assert!(eq(e.0.as_bytes(), &t)),
    }
}}
harness! { bq_from_cstring, unwind = 8, {
    let t = text::<2>();
    let mut v = Vec::with_capacity(3);
    v.extend_from_slice(&t);
    let b = char_p_boxed::from(unsafe { CString::from_vec_unchecked(v) });
    assert!(eq(b.to_bytes(), &t));
    if kani::any() { drop(b) } else { assert!(eq(&b.into_vec(), &t)) }
}}
harness! { bq_from_cstring_empty, unwind = 8, {
    let b = char_p_boxed::from(unsafe { CString::from_vec_unchecked(Vec::new()) });
    if kani::any() { drop(b) } else { assert!(b.into_vec().len() == 0) }
}}
harness! { bq_to_string, unwind = 8, {
    let t = text::<2>();
    let m = memory(&t);
    let s = unsafe { handle(&m) }.to_string();
    assert!(eq(s.as_bytes(), &t) && s.as_ptr() != m.as_ptr());
}}
// Rust strings of the other kinds keep nothing.
harness! { bq_new_c_string, unwind = 8, {
    let t = text::<2>();
    let s: repr_c::String = unsafe { String::from_utf8_unchecked(t.to_vec()) }.into();
    let b = char_p::new(s);
    assert!(eq(b.to_bytes(), &t));
}}
