//! H02: what the generated C header says about a type is what the type is.
//!
//! The formatting machinery of the standard library runs for real, except for the contracts in `ghostfmt`.
use crate::common::TAG;
use safer_ffi::headers::languages::{HeaderLanguage, Indentation, C};
use safer_ffi::headers::{Definer, Language};
use safer_ffi::ඞ::inventory::{hash, Submitted};
use safer_ffi::layout::{CLayoutOf, CType, OpaqueKind};
use safer_ffi::prelude::*;
use std::marker::PhantomData;
use std::{fmt, io};

use crate::ghostfmt::{self, is, said, top, T};
use safer_ffi::layout::ReprC;

/// `str::split_inclusive('\n')` on a text without any.
pub fn s_next_match<'a: 'a>(_: &mut core::str::pattern::CharSearcher<'a>) -> Option<(usize, usize)> { None }
struct W;
impl io::Write for W {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { panic!("not written piecewise") }
    fn write_all(&mut self, b: &[u8]) -> io::Result<()> { unsafe { let _ = fmt::Write::write_str(&mut T, core::str::from_utf8_unchecked(b)); } Ok(()) }
    fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> io::Result<()> { assert!(fmt::write(&mut T, a).is_ok()); Ok(()) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
/// `Vec::extend_from_slice` (of bytes) on a buffer that does not move.
#[cfg(not(test))]
pub fn s_extend<T: Clone, A: std::alloc::Allocator>(this: &mut Vec<T, A>, s: &[T]) {
    unsafe {
        assert!(core::mem::size_of::<A>() == 0 && core::mem::size_of::<T>() == 1);
        if this.capacity() < 128 {
            assert!(this.len() == 0);
            core::ptr::write((this as *mut Vec<T, A>).cast::<Vec<T>>(), Vec::with_capacity(128));
        }
        assert!(this.len() + s.len() <= 128, "the buffer of the stub is too small");
        let (to, n, mut i) = (this.as_mut_ptr(), this.len(), 0);
        while i < s.len() { *to.add(n + i) = s[i].clone(); i += 1 }
        this.set_len(n + i);
    }
}
/// `str::from_utf8` of ASCII.
pub fn s_from_utf8(b: &[u8]) -> Result<&str, core::str::Utf8Error> {
    let mut i = 0;
    while i < b.len() { assert!(b[i] < 128); i += 1 }
    Ok(unsafe { core::str::from_utf8_unchecked(b) })
}
macro_rules! h {
    ($(#[$m:meta])* $n:ident, unwind = $u:literal, $b:block) => {
        harness! {
            #[kani::stub(alloc::fmt::format, ghostfmt::s_format)]
            #[kani::stub(alloc::string::String::push_str, ghostfmt::s_push_str)]
            #[cfg_attr(not(test), kani::stub(alloc::vec::Vec::extend_from_slice, s_extend))]
            #[kani::stub(core::str::from_utf8, s_from_utf8)]
            #[kani::stub(core::fmt::Formatter::pad, ghostfmt::s_pad)]
            #[kani::stub(core::fmt::Arguments::as_str, ghostfmt::s_as_str)]
            #[kani::stub(core::fmt::Arguments::from_str, ghostfmt::s_from_str)]
            #[kani::stub(<core::str::pattern::CharSearcher<'_> as core::str::pattern::Searcher<'_>>::next_match, s_next_match)]
            $(#[$m])* $n, unwind = $u, { unsafe { $b } }
        }
    };
}

// ---- any C type -------------------------------------------------------------------------------------
macro_rules! component {($($G:ident $s:literal $t:ty),*) => {$(
    #[repr(C)] #[derive(Clone, Copy)]
    pub struct $G($t);
    unsafe impl CType for $G {
        type OPAQUE_KIND = OpaqueKind::Concrete;
        fn short_name() -> String { $s.into() }
        fn define_self__impl(_: &dyn HeaderLanguage, _: &mut dyn Definer) -> io::Result<()> { Ok(()) }
    }
    safer_ffi::layout::from_CType_impl_ReprC! { $G }
)*}}
component! { G1 "G1" u32, G2 "G2" u8, G3 "G3" u64 }

// ---- names ------------------------------------------------------------------------------------------
/// What the C standard (and, for the widths, LP64 x86-64) says about the name of an arithmetic type:
/// size, alignment, 'u'nsigned, 's'igned, 'f'loating, 'b'oolean.
fn c(name: &str) -> (usize, usize, char) {
    let table = [
        ("uint8_t", (1, 1, 'u')), ("uint16_t", (2, 2, 'u')), ("uint32_t", (4, 4, 'u')), ("uint64_t", (8, 8, 'u')), ("size_t", (8, 8, 'u')), ("uintptr_t", (8, 8, 'u')),
        ("int8_t", (1, 1, 's')), ("int16_t", (2, 2, 's')), ("int32_t", (4, 4, 's')), ("int64_t", (8, 8, 's')), ("ssize_t", (8, 8, 's')), ("intptr_t", (8, 8, 's')),
        ("int", (4, 4, 's')), ("char", (1, 1, 's')), ("float", (4, 4, 'f')), ("double", (8, 8, 'f')), ("bool", (1, 1, 'b')),
    ];
    let mut i = 0;
    while i < table.len() {
        if is(name, table[i].0) { return table[i].1 }
        i += 1
    }
    panic!("not the name of an arithmetic type of C")
}
unsafe fn basic<R: ReprC>(kind: char) { basic_c::<R::CLayout>(core::mem::size_of::<R>(), core::mem::align_of::<R>(), kind) }
unsafe fn basic_c<R: CType>(size: usize, align: usize, kind: char) {
    let n = <R as CType>::name(&C);
    assert!(c(&n) == (size, align, kind), "size, alignment and signedness of the C type");
    let v = <R as CType>::name_wrapping_var(&C, "v");
    let l = n.len();
    assert!(v.len() == l + 2 && is(&v[..l], &n) && is(&v[l..], " v"));
    assert!(top() == 0);
}
macro_rules! basics {($($n:ident $t:ty, $k:literal;)*) => {$(
    h! { $n, unwind = 40, { basic::<$t>($k); } }
)*}}
basics! {
    pq_u8 u8, 'u'; pq_u16 u16, 'u'; pq_u32 u32, 'u'; pq_u64 u64, 'u'; pq_usize usize, 'u';
    pq_i8 i8, 's'; pq_i16 i16, 's'; pq_i32 i32, 's'; pq_i64 i64, 's'; pq_isize isize, 's';
    pq_f32 f32, 'f'; pq_f64 f64, 'f'; pq_bool bool, 'b'; pq_c_char safer_ffi::c_char, 's';
}
h! { pq_c_int, unwind = 40, { basic_c::<safer_ffi::c_int>(core::mem::size_of::<safer_ffi::libc::c_int>(), core::mem::align_of::<safer_ffi::libc::c_int>(), 's'); } }
unsafe fn named<R: ReprC>(short: &str, name: &str, var: &str) {
    assert!(is(&<CLayoutOf<R> as CType>::short_name(), short));
    assert!(is(&<CLayoutOf<R> as CType>::name(&C), name));
    assert!(is(&<CLayoutOf<R> as CType>::name_wrapping_var(&C, "v"), var));
}
h! { pq_const_ptr, unwind = 40, { named::<*const G1>("G1_const_ptr", "G1_t const *", "G1_t const * v"); } }
h! { pq_ref, unwind = 40, { named::<&G1>("G1_const_ptr", "G1_t const *", "G1_t const * v"); } }
h! { pq_mut_ptr, unwind = 40, { named::<*mut G1>("G1_ptr", "G1_t *", "G1_t * v"); } }
h! { pq_mut, unwind = 40, { named::<&mut G1>("G1_ptr", "G1_t *", "G1_t * v"); } }
h! { pq_boxed, unwind = 40, { named::<repr_c::Box<G1>>("G1_ptr", "G1_t *", "G1_t * v"); } }
h! { pq_opt_ref, unwind = 40, { named::<Option<&G1>>("G1_const_ptr", "G1_t const *", "G1_t const * v"); } }
h! { pq_array, unwind = 40, { named::<[G1; 3]>("G1_3_array", "G1_3_array_t", "G1_3_array_t v"); } }
h! { pq_array_1024, unwind = 40, { named::<[G2; 1024]>("G2_1024_array", "G2_1024_array_t", "G2_1024_array_t v"); } }
h! { pq_fn, unwind = 40, { named::<unsafe extern "C" fn(G1, G2) -> G3>("G3_G1_G2_fptr", "G3_t (*)(G1_t, G2_t)", "G3_t (*v)(G1_t, G2_t)"); } }
h! { pq_fn0, unwind = 40, { named::<Option<unsafe extern "C" fn()>>("void_fptr", "void (*)(void)", "void (*v)(void)"); } }
h! { pq_unit, unwind = 40, { named::<()>("void", "void", "void v"); } }

// ---- the text of definitions ---------------------------------------------------------------------------
/// A definer to which everything named in `KNOWN` is defined already.
static mut KNOWN: (&[&str], u64) = (&[], TAG);
struct D { w: W }
impl Definer for D {
    fn insert(&mut self, n: &str) -> bool { unsafe { let mut i = 0; while i < KNOWN.0.len() { if is(n, KNOWN.0[i]) { return false } i += 1 } } true }
    fn out(&mut self) -> &mut dyn io::Write { &mut self.w }
}
unsafe fn text(r: io::Result<()>, want: &str) {
    assert!(r.is_ok());
    std::mem::forget(r);
    assert!(said(want));
}
unsafe fn defines<R: ReprC>(want: &str) { text(<CLayoutOf<R> as CType>::define_self(&C, &mut D { w: W }), want) }
unsafe fn exports(e: &safer_ffi::FfiExport, want: &str) { text((e.gen_def)(&mut D { w: W }, Language::C), want) }
macro_rules! nodoc { ($s:literal) => { concat!("/** <No documentation available> */ ", $s) } }

h! { pq_define_array, unwind = 500, { defines::<[G1; 3]>("typedef struct { G1_t idx[3]; } G1_3_array_t; "); } }
h! { pq_define_array_1024, unwind = 500, { KNOWN.0 = &["__int_headers__"]; defines::<[u8; 1024]>("typedef struct { uint8_t idx[1024]; } uint8_1024_array_t; "); } }
h! { pq_define_array_nested, unwind = 500, { defines::<[[G1; 2]; 7]>("typedef struct { G1_t idx[2]; } G1_2_array_t; typedef struct { G1_2_array_t idx[7]; } G1_2_array_7_array_t; "); } }
h! { pq_define_ints, unwind = 500, { defines::<u8>("#include <stddef.h> #include <stdint.h> "); } }
h! { pq_define_bool, unwind = 500, { defines::<bool>("#include <stdbool.h> "); } }
h! { pq_docs, unwind = 500, {
    text(C.emit_docs(&mut D { w: W }, &[], &Indentation::new(4)), nodoc!(""));
} }

/// S
#[derive_ReprC]
#[repr(C)]
pub struct S { pub a: G1, /** B */ pub bc: [G2; 3] }
#[derive_ReprC]
#[repr(C)]
pub struct Sp { pub p: &'static G3, pub f: Option<extern "C" fn(G1) -> G2> }
#[derive_ReprC]
#[repr(C)]
pub struct Z<T: ReprC> { pub x: T, pub z: PhantomData<u8>, pub y: G1 }
#[derive_ReprC]
#[repr(transparent)]
pub struct Tr(G1);
h! { pq_struct, unwind = 500, {
    KNOWN.0 = &["G2_3_array_t"];
    defines::<S>(concat!("/** \\brief * S */ typedef struct S { ", nodoc!("G1_t a; "), "/** \\brief * B */ G2_3_array_t bc; } S_t; "));
} }
h! { pq_struct_pointers, unwind = 500, {
    defines::<Sp>(concat!(nodoc!("typedef struct Sp { "), nodoc!("G3_t const * p; "), nodoc!("G2_t (*f)(G1_t); } Sp_t; ")));
} }
h! { pq_struct_generic, unwind = 500, {
    defines::<Z<*mut G2>>(concat!(nodoc!("typedef struct Z_G2_ptr { "), nodoc!("G2_t * x; "), nodoc!("G1_t y; } Z_G2_ptr_t; ")));
} }

#[derive_ReprC]
#[repr(opaque)]
pub struct Op { pub x: u32 }
h! { pq_opaque, unwind = 500, { defines::<repr_c::Box<Op>>(nodoc!("typedef struct Op Op_t; ")); } }

// Discriminants: the value of each variant as the enum's own integer type has it.
const BIG: u64 = 1 << 40;
#[derive_ReprC] #[repr(u8)] pub enum Eu8 { A = !0, Bc = 1 + 1, D }
#[derive_ReprC] #[repr(i8)] pub enum Ei8 { Low = -128, NoValue, Top = 127 }
#[derive_ReprC] #[repr(u64)] pub enum Eu64 { Max = !0, Big = BIG }
#[derive_ReprC] #[repr(i64)] pub enum Ei64 { Min = i64::MIN }
#[derive_ReprC] #[repr(u16)] pub enum Eu16 { ABCd1, Http2Ok = 0x1_00, XY = 0xffff }
macro_rules! en { ($i:literal, $s:literal, $($v:literal),*) => { concat!("/** <No documentation available> */ /** \\remark Has the same ABI as `", $i, "` **/ #ifdef DOXYGEN typedef #endif enum ", $s, " { ",
    $("/** <No documentation available> */ ", $v, ", ",)* "} #ifndef DOXYGEN ; typedef ", $i, " #endif ", $s, "_t; ") } }
h! { pq_enum_u8, unwind = 500, { KNOWN.0 = &["__int_headers__"]; defines::<Eu8>(en!("uint8_t", "Eu8", "EU8_A = 255", "EU8_BC = 2", "EU8_D")); } }
h! { pq_enum_i8, unwind = 500, { KNOWN.0 = &["__int_headers__"]; defines::<Ei8>(en!("int8_t", "Ei8", "EI8_LOW = -128", "EI8_NO_VALUE", "EI8_TOP = 127")); } }
h! { pq_enum_u64, unwind = 500, { KNOWN.0 = &["__int_headers__"]; defines::<Eu64>(en!("uint64_t", "Eu64", "EU64_MAX = 18446744073709551615", "EU64_BIG = 1099511627776")); } }
h! { pq_enum_i64, unwind = 500, { KNOWN.0 = &["__int_headers__"]; defines::<Ei64>(en!("int64_t", "Ei64", "EI64_MIN = -9223372036854775808")); } }
h! { pq_enum_u16, unwind = 500, { KNOWN.0 = &["__int_headers__"]; defines::<Eu16>(en!("uint16_t", "Eu16", "EU16_A_B_CD1", "EU16_HTTP2_OK = 256", "EU16_X_Y = 65535")); } }

// ---- functions and constants -----------------------------------------------------------------------------
pub mod exp {
    use super::*;
    pub struct Exports;
    #[ffi_export] pub fn none() {}
    #[ffi_export] pub fn three(a: G1, bc: &G2, d: [G3; 2]) -> *const G3 { let _ = (a, bc, d); loop {} }
    #[ffi_export(rename = "other")] pub fn cb(f: extern "C" fn(G1) -> G2) -> Option<extern "C" fn()> { let _ = f; loop {} }
    #[ffi_export] pub const U32: u32 = 4_000_000_000;
    #[ffi_export] pub const I64: i64 = i64::MIN;
    #[ffi_export] pub const U64: u64 = u64::MAX;
    #[ffi_export] pub const I8: i8 = -5;
    #[ffi_export(untyped)] pub const RAW: u16 = 65_535;
    #[ffi_export] pub const T: bool = true;
}
macro_rules! item { ($n:literal) => { <exp::Exports as Submitted<{ hash($n) }>>::ITEM } }
h! { pq_fn_none, unwind = 500, { exports(item!("none"), nodoc!("void none (void); ")); } }
h! { pq_fn_three, unwind = 500, { KNOWN.0 = &["G3_2_array_t"]; exports(item!("three"), nodoc!("G3_t const * three ( G1_t a, G2_t const * bc, G3_2_array_t d); ")); } }
h! { pq_fn_callbacks, unwind = 500, { exports(item!("other"), nodoc!("void (* other ( G2_t (*f)(G1_t)))(void); ")); } }
macro_rules! consts {($($n:ident $name:literal $want:literal;)*) => {$(
    h! { $n, unwind = 500, { KNOWN.0 = &["__int_headers__", "bool"]; exports(item!($name), concat!(nodoc!("#define "), $name, " ", $want, " ")); } }
)*}}
consts! {
    pq_const_u32 "U32" "((uint32_t) 4000000000)";
    pq_const_i64 "I64" "((int64_t) -9223372036854775808)";
    pq_const_u64 "U64" "((uint64_t) 18446744073709551615)";
    pq_const_i8 "I8" "((int8_t) -5)";
    pq_const_untyped "RAW" "65535";
    pq_const_bool "T" "((bool) true)";
}
/// Whatever the value prints itself as is what the definition says.
struct Any;
impl fmt::Debug for Any { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("<any>") } }
h! { pq_const_any, unwind = 500, { text(C.emit_constant(&mut D { w: W }, &[], "X", &PhantomData::<G1>, false, &Any), nodoc!("#define X ((G1_t) <any>) ")); } }

// ---- upper snake case ---------------------------------------------------------------------------------------
/// A writer that is given the letters of `WANT` one after the other.
static mut WANT: ([u8; 16], u64) = ([0; 16], TAG);
static mut GOT: (usize, u64) = (0, TAG);
struct Letters;
impl fmt::Write for Letters {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        assert!(s.len() == 1);
        unsafe { assert!(s.as_bytes()[0] == WANT.0[GOT.0]); GOT.0 += 1; }
        Ok(())
    }
}
unsafe fn case<const A: usize, const B: usize>() {
    let (a, b): ([u8; A], [u8; B]) = (kani::any(), kani::any());
    let (mut n, mut i) = (0, 0);
    while i < A + B {
        let c = if i < A { a[i] } else { b[i - A] };
        kani::assume(c < 128);
        if i > 0 && b'A' <= c && c <= b'Z' { WANT.0[n] = b'_'; n += 1 }
        WANT.0[n] = if b'a' <= c && c <= b'z' { c - 32 } else { c };
        n += 1;
        i += 1;
    }
    let it = safer_ffi::__screaming_case(core::str::from_utf8_unchecked(&a), core::str::from_utf8_unchecked(&b));
    assert!(fmt::write(&mut Letters, format_args!("{}", it)).is_ok());
    assert!(GOT.0 == n);
}
h! { bq_case_1_2, unwind = 8, { case::<1, 2>(); } }
h! { bq_case_2_2, unwind = 8, { case::<2, 2>(); } }
h! { bq_case_0_3, unwind = 8, { case::<0, 3>(); } }
