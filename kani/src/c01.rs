//! C01: C string handles are NUL-terminated and free of interior NULs.
//! The oracle is the text itself (its bytes, read before the call) and the memory behind the pointer C gets.
use crate::common::*;
use safer_ffi::prelude::*;
use safer_ffi::char_p::{char_p_boxed, char_p_raw, char_p_ref, InvalidNulTerminator};
use std::ffi::{CStr, CString};

pub const MAX: usize = 4;

/// The bytes C sees.
fn c_ref(r: char_p_ref<'_>) -> *const u8 { unsafe { core::mem::transmute(r) } }
fn c_box(b: &char_p_boxed) -> *const u8 { unsafe { core::mem::transmute_copy(b) } }

/// Any text of exactly `n` bytes (any byte that stands alone in UTF-8, NULs anywhere).
fn any_text(n: usize) -> &'static [u8] {
    let s: &'static mut [u8; MAX + 2] = Box::leak(Box::new(kani::any()));
    kani::assume(n <= MAX + 2);
    let s = &s[MAX + 2 - n..];      // the text ends where the memory ends
    let mut k = 0;
    while k < n { kani::assume(s[k] < 0x80); k += 1 }
    s
}
fn any_len() -> usize { let n = kani::any(); kani::assume(n <= MAX); n }
fn as_str(b: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(b) } }

/// Position of the first NUL, or the length.
fn first_nul(b: &[u8]) -> usize {
    let mut k = 0;
    while k < b.len() && b[k] != 0 { k += 1 }
    k
}
/// `p` points to the bytes of `t` followed by one NUL, and `t` has none.
fn spells(p: *const u8, t: &[u8]) {
    assert!(!p.is_null(), "the pointer is never null");
    let mut k = 0;
    while k < t.len() {
        assert!(unsafe { *p.add(k) } == t[k] && t[k] != 0, "the bytes of the text, without any NUL");
        k += 1;
    }
    assert!(unsafe { *p.add(t.len()) } == 0, "terminated by NUL right after the text");
}

// ------------------------------------------------------------------------------------ borrowed
harness! { bq_ref_from_str, unwind = 8, {
    let t = any_text(any_len());
    let nul = first_nul(t);
    match char_p_ref::try_from(as_str(t)) {
        Ok(r) => {
            assert!(t.is_empty() || nul + 1 == t.len(), "accepted: the only NUL is the last byte, or the text is empty");
            spells(c_ref(r), &t[..nul]);
            if !t.is_empty() { assert!(c_ref(r) == t.as_ptr(), "the very memory of the text"); }
        },
        Err(InvalidNulTerminator(())) => assert!(!t.is_empty() && nul + 1 != t.len(), "refused: no terminator, or an interior NUL"),
    }
}}
harness! { pq_ref_empty, unwind = 4, {
    spells(c_ref(char_p_ref::EMPTY), b"");
    spells(c_ref(char_p_ref::try_from("").unwrap()), b"");
}}
fn ref_from_cstr(n: usize) {
    let t = any_text(n + 1);
    kani::assume(first_nul(t) == n);
    let c = unsafe { CStr::from_bytes_with_nul_unchecked(t) };
    let r = char_p_ref::from(c);
    assert!(c_ref(r) == t.as_ptr(), "the very memory of the CStr");
    spells(c_ref(r), &t[..n]);
}
harness! { bq_ref_from_cstr_0, unwind = 8, { ref_from_cstr(0) }}
harness! { bq_ref_from_cstr_1, unwind = 8, { ref_from_cstr(1) }}
harness! { bq_ref_from_cstr_3, unwind = 8, { ref_from_cstr(3) }}
harness! { bq_ref_raw, unwind = 8, {
    let t = any_text(any_len() + 1);
    kani::assume(first_nul(t) + 1 == t.len());
    let r = unsafe { char_p_ref::from_ptr_unchecked(core::ptr::NonNull::new_unchecked(t.as_ptr() as *mut u8)) };
    let raw = char_p_raw::from(r);
    assert!(unsafe { core::mem::transmute_copy::<_, *const u8>(&raw) } == t.as_ptr());
    assert!(c_ref(unsafe { raw.as_ref() }) == t.as_ptr(), "raw and back: the same pointer");
}}
panics! { bq_ref_from_cstr_not_utf8, unwind = 8, {
    let b: u8 = kani::any();
    kani::assume(b >= 0x80);
    let t = [b, 0];
    let _ = core::hint::black_box(char_p_ref::from(unsafe { CStr::from_bytes_with_nul_unchecked(&t) }));
}}
harness! { pq_macro, unwind = 10, {
    spells(c_ref(c!("")), b"");
    spells(c_ref(c!()), b"");
    spells(c_ref(c!("\0")), b"");
    spells(c_ref(c!("a")), b"a");
    spells(c_ref(c!("abc")), b"abc");
    spells(c_ref(c!("abc\0")), b"abc");
    spells(c_ref(c!("\u{e9}\u{1F600}")), b"\xc3\xa9\xf0\x9f\x98\x80");
}}

// --------------------------------------------------------------------------------------- owned
fn owned_ok(t: &[u8]) -> bool { let n = first_nul(t); n >= t.len() || n + 1 == t.len() }
fn owned_from_string(t: &'static [u8], spare: usize) {
    let mut v = Vec::with_capacity(t.len() + spare);
    v.extend_from_slice(t);
    let s = unsafe { String::from_utf8_unchecked(v) };
    match char_p_boxed::try_from(s) {
        Ok(b) => {
            assert!(owned_ok(t), "accepted: the only NUL, if any, is the last byte");
            spells(c_box(&b), &t[..first_nul(t)]);
        },
        Err(InvalidNulTerminator(back)) => {
            assert!(!owned_ok(t), "refused: interior NUL");
            assert!(back.as_bytes() == t, "the error hands the text back unchanged");
        },
    }
}
harness! { bq_owned_0, unwind = 8, { owned_from_string(any_text(0), 0) }}
harness! { bq_owned_1, unwind = 8, { owned_from_string(any_text(1), 0) }}
harness! { bq_owned_2, unwind = 8, { owned_from_string(any_text(2), 0) }}
harness! { bq_owned_3, unwind = 8, { owned_from_string(any_text(3), 0) }}
harness! { bq_owned_spare, unwind = 8, { owned_from_string(any_text(2), 2) }}
harness! { bt_owned_4, unwind = 8, { owned_from_string(any_text(4), 0) }}
harness! { bt_owned_5, unwind = 8, { owned_from_string(any_text(5), 1) }}

fn new_ok(t: &'static [u8]) { kani::assume(owned_ok(t)); }
harness! { bq_new_str, unwind = 8, {
    let t = any_text(2);
    new_ok(t);
    let b = char_p::new(as_str(t));
    spells(c_box(&b), &t[..first_nul(t)]);
}}
harness! { bq_new_string, unwind = 8, {
    let t = any_text(2);
    new_ok(t);
    let b = char_p::new(String::from(as_str(t)));
    spells(c_box(&b), &t[..first_nul(t)]);
}}
harness! { bq_new_c_string, unwind = 8, {
    let t = any_text(2);
    new_ok(t);
    let b = char_p::new(repr_c::String::from(String::from(as_str(t))));
    spells(c_box(&b), &t[..first_nul(t)]);
}}
harness! { bq_new_str_ref, unwind = 8, {
    let t = any_text(2);
    new_ok(t);
    let b = char_p::new(str::Ref::from(as_str(t)));
    spells(c_box(&b), &t[..first_nul(t)]);
}}
harness! { bq_new_cstr, unwind = 8, {
    let t = any_text(3);
    kani::assume(first_nul(t) == 2);
    let b = char_p::new(unsafe { CStr::from_bytes_with_nul_unchecked(t) });
    spells(c_box(&b), &t[..2]);
}}
harness! { bq_new_cstring, unwind = 8, {
    let t = any_text(2);
    kani::assume(first_nul(t) == 2);
    let c = unsafe { CString::from_vec_unchecked(t.to_vec()) };
    spells(c_box(&char_p_boxed::from(c)), t);
}}
harness! { bq_new_cstring_empty, unwind = 8, {
    let c = unsafe { CString::from_vec_unchecked(Vec::new()) };
    spells(c_box(&char_p_boxed::from(c)), b"");
}}
panics! { bq_new_str_interior, unwind = 8, {
    let t = any_text(3);
    kani::assume(!owned_ok(t));
    let _ = core::hint::black_box(char_p::new(as_str(t)));
}}
panics! { bq_new_string_interior, unwind = 8, {
    let t = any_text(3);
    kani::assume(!owned_ok(t));
    let _ = core::hint::black_box(char_p::new(String::from(as_str(t))));
}}
panics! { bq_new_cstring_not_utf8, unwind = 8, {
    let b: u8 = kani::any();
    kani::assume(b >= 0x80);
    let _ = core::hint::black_box(char_p_boxed::from(unsafe { CString::from_vec_unchecked(vec![b]) }));
}}
harness! { bq_to_owned, unwind = 8, {
    let t = &[kani::any(), kani::any(), 0u8];
    kani::assume(first_nul(t) == 2 && t[0] < 0x80 && t[1] < 0x80);
    let r = unsafe { char_p_ref::from_ptr_unchecked(core::ptr::NonNull::new_unchecked(t.as_ptr() as *mut u8)) };
    let b = r.to_owned();
    spells(c_box(&b), &t[..2]);
    assert!(c_box(&b) != t.as_ptr(), "an independent copy");
}}

// ------------------------------------------------------- owned, any length (`contains` by contract)
/// Ghost: position of the first NUL of the text under test, or its length.
pub static mut FIRST: (usize, u64) = (0, TAG);
pub static mut TEXT: (*const u8, u64) = (core::ptr::null(), TAG);
/// `<[u8]>::contains(&0)` on a prefix of the text: true exactly when the first NUL lies in the prefix.
pub fn c_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    unsafe {
        assert!(core::mem::size_of::<T>() == 1 && *(x as *const T as *const u8) == 0, "PRE: the search is for NUL");
        assert!(s.as_ptr() as *const u8 == TEXT.0, "PRE: the search starts at the text");
        FIRST.0 < s.len()
    }
}
/// The same for a prefix of a copy of the text.
pub fn c_contains_anywhere<T: PartialEq>(s: &[T], x: &T) -> bool {
    unsafe {
        assert!(core::mem::size_of::<T>() == 1 && *(x as *const T as *const u8) == 0, "PRE: the search is for NUL");
        FIRST.0 < s.len()
    }
}
/// Text of any length >= 2; returns it with its first NUL and an arbitrary index.
fn text_any_len() -> (&'static mut [u8], usize, usize) {
    let s = any_slice_min(2);
    let (l, first, k) = (s.len(), kani::any(), below(s.len()));
    kani::assume(first <= l && (first == l || s[first] == 0));
    // no byte before `first` is NUL: instantiated where the proof looks
    kani::assume(k >= first || s[k] != 0);
    kani::assume(0 >= first || s[0] != 0);
    kani::assume(l - 1 >= first || s[l - 1] != 0);
    unsafe { FIRST.0 = first; TEXT.0 = s.as_ptr(); }
    (s, first, k)
}
fn spells_at(b: &char_p_boxed, first: usize, k: usize, byte: u8) {
    let p = c_box(b);
    assert!(k >= first || unsafe { *p.add(k) } == byte, "the bytes of the text");
    assert!(unsafe { *p.add(first) } == 0, "terminated by NUL right after the text");
}
harness! { #[kani::stub(<[u8]>::contains, crate::c01::c_contains)] pq_owned_any, unwind = 4, {
    let (s, first, k) = text_any_len();
    let (l, byte) = (s.len(), s[k]);
    let t = unsafe { String::from_raw_parts(s.as_mut_ptr(), l, l) };
    match char_p_boxed::try_from(t) {
        Ok(b) => {
            assert!(first + 1 >= l, "accepted: the only NUL, if any, is the last byte");
            spells_at(&b, first, k, byte);
            core::mem::forget(b);
        }
        Err(InvalidNulTerminator(back)) => {
            assert!(first + 1 < l, "refused: interior NUL");
            assert!(back.as_ptr() == unsafe { TEXT.0 } && back.len() == l, "the error hands the very text back");
            assert!(back.as_bytes()[k] == byte, "unchanged");
            core::mem::forget(back);
        }
    }
}}
harness! { #[kani::stub(<[u8]>::contains, crate::c01::c_contains_anywhere)] pq_new_str_any, unwind = 4, {
    let (s, first, k) = text_any_len();
    kani::assume(first + 1 >= s.len());
    let b = char_p::new(as_str(s));
    spells_at(&b, first, k, s[k]);
    core::mem::forget(b);
}}
panics! { #[kani::stub(<[u8]>::contains, crate::c01::c_contains_anywhere)] pq_new_str_any_interior, unwind = 4, {
    let (s, first, _) = text_any_len();
    kani::assume(first + 1 < s.len());
    core::mem::forget(core::hint::black_box(char_p::new(as_str(s))));
}}
