//! Contracts of the formatting machinery of the standard library, for text the verifier can follow.
//!
//! `core::fmt::write` itself and every `Display`/`Debug` run for real.  Replaced: `Arguments::{from_str, as_str}` (the
//! same answers, without arithmetic on addresses: asserted), `Formatter::pad` (no padding: callers compare text up
//! to white space), `alloc::fmt::format` and `String::push_str` (the same text, in a buffer that does not grow).
use crate::common::TAG;
use std::fmt;

/// In rows, because CBMC follows the elements of small arrays only.
static mut TEXT: ([[u8; 64]; 12], u64) = ([[0; 64]; 12], TAG);
static mut TOP: (usize, u64) = (0, TAG);
/// Whether lines are kept (the other texts are not).
pub static mut KEEP: (bool, u64) = (true, TAG);
pub unsafe fn at(i: usize) -> u8 { TEXT.0[i / 64][i % 64] }
pub unsafe fn top() -> usize { TOP.0 }
pub struct T;
impl fmt::Write for T {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let (b, mut i) = (s.as_bytes(), 0);
        unsafe { while i < b.len() { TEXT.0[TOP.0 / 64][TOP.0 % 64] = b[i]; TOP.0 += 1; i += 1 } }
        Ok(())
    }
}
static mut LITERAL: ((*const u8, usize), u64) = ((core::ptr::null(), 0), TAG);
pub fn s_from_str<'a: 'a>(s: &'static str) -> fmt::Arguments<'a> {
    unsafe { LITERAL.0 = (s.as_ptr(), s.len()); core::mem::transmute((s.as_ptr(), s.len() << 1 | 1)) }
}
#[cfg(kani)]
pub fn s_as_str<'a: 'a>(a: &fmt::Arguments<'a>) -> Option<&'static str> {
    unsafe {
        let (t, args): (*const u8, *const u8) = core::mem::transmute_copy(a);
        if !LITERAL.0.0.is_null() && t == LITERAL.0.0 {
            assert!(args as usize == LITERAL.0.1 << 1 | 1, "the last literal");
            Some(core::str::from_utf8_unchecked(core::slice::from_raw_parts(t, LITERAL.0.1)))
        } else { assert!(args as usize & 1 == 0, "not a literal"); None }
    }
}
pub fn s_pad<'a: 'a>(f: &mut fmt::Formatter<'a>, s: &str) -> fmt::Result { assert!(f.precision().is_none()); fmt::Write::write_str(f, s) }
/// Lines (text that ends in a newline) stay in `TEXT`, and their writer is given nothing to write.
pub fn s_format(a: fmt::Arguments<'_>) -> String {
    unsafe {
        let from = TOP.0;
        assert!(fmt::write(&mut T, a).is_ok());
        if KEEP.0 && TOP.0 > from && at(TOP.0 - 1) == b'\n' { return String::with_capacity(1) }
        let mut s = Vec::with_capacity(256);
        let (to, mut i): (*mut u8, _) = (s.as_mut_ptr(), from);
        assert!(TOP.0 - from <= 256, "the buffer of the stub is too small");
        while i < TOP.0 { *to.add(i - from) = at(i); i += 1 }
        s.set_len(i - from);
        TOP.0 = from;
        String::from_utf8_unchecked(s)
    }
}
/// `String::push_str` on a string whose buffer does not move.
pub fn s_push_str(this: &mut String, s: &str) {
    unsafe {
        if this.capacity() < 64 {       // its first growth: a buffer that will do
            let mut new = String::with_capacity(64);
            let (from, to) = (this.as_mut_vec(), new.as_mut_vec());
            let mut i = 0;
            while i < from.len() { *to.as_mut_ptr().add(i) = from[i]; i += 1 }
            to.set_len(i);
            core::ptr::write(this, new);
        }
        let v = this.as_mut_vec();
        assert!(v.len() + s.len() <= v.capacity(), "the buffer of the stub is too small");
        let (b, mut i) = (s.as_bytes(), 0);
        while i < b.len() { *v.as_mut_ptr().add(v.len() + i) = b[i]; i += 1 }
        v.set_len(v.len() + i);
    }
}
pub fn is(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    let mut i = 0;
    while i < a.len() && i < b.len() && a[i] == b[i] { i += 1 }
    a.len() == b.len() && i == a.len()
}
/// The text written so far, any amount of white space as one blank.
pub unsafe fn said(want: &str) -> bool {
    let (want, mut i, mut k, mut blank) = (want.as_bytes(), 0, 0, true);
    while i < TOP.0 {
        let c = at(i);
        let b = c == b' ' || c == b'\n';
        if !(b && blank) {
            if k == want.len() || want[k] != if b { b' ' } else { c } { return false }
            k += 1
        }
        blank = b;
        i += 1
    }
    k == want.len()
}
