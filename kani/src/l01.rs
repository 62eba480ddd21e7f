//! L01: which raw values are accepted.  The oracle is stated on the raw bits, per type; the bits are arbitrary.
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, ReprC};
use safer_ffi::prelude::*;
use safer_ffi::ptr::{NonNullMut, NonNullOwned, NonNullRef};
use safer_ffi::slice::{slice_boxed, slice_mut, slice_raw, slice_ref};
use safer_ffi::string::{str_boxed, str_ref};
use safer_ffi::tuple::*;
use core::mem::{align_of, size_of, transmute_copy, ManuallyDrop};

/// The raw value with the given bits.
fn raw<T: ReprC, Bits: Copy>(b: Bits) -> CLayoutOf<T> {
    assert!(size_of::<CLayoutOf<T>>() == size_of::<Bits>(), "harness: size of the raw bits");
    unsafe { transmute_copy(&b) }
}
fn bits<T: ReprC, Bits: Copy>(c: CLayoutOf<T>) -> Bits {
    assert!(size_of::<CLayoutOf<T>>() == size_of::<Bits>(), "harness: size of the raw bits");
    unsafe { transmute_copy(&c) }
}
/// The whole contract of the checked conversion, for these bits.
fn decide<T: ReprC, Bits: Copy + PartialEq>(b: Bits, legal: bool) {
    assert!(T::is_valid(&raw::<T, Bits>(b)) == legal, "accepted exactly when legal");
    match unsafe { from_raw::<T>(raw::<T, Bits>(b)) } {
        Some(t) => {
            assert!(legal, "from_raw: an illegal value is refused");
            assert!(bits::<T, Bits>(unsafe { into_raw(t) }) == b, "the same bits come back");
        }
        None => assert!(!legal, "from_raw: a legal value is converted"),
    }
    if legal {
        let t = unsafe { from_raw_unchecked::<T>(raw::<T, Bits>(b)) };
        assert!(bits::<T, Bits>(unsafe { into_raw(t) }) == b, "unchecked: the same bits");
    }
}
fn refuse<T: ReprC, Bits: Copy + PartialEq>(b: Bits) {
    core::mem::forget(unsafe { from_raw_unchecked::<T>(raw::<T, Bits>(b)) });
}

harness! { pq_bool, unwind = 34, {
    let b: u8 = kani::any();
    decide::<bool, u8>(b, b == 0 || b == 1);
    if let Some(t) = unsafe { from_raw::<bool>(raw::<bool, u8>(b)) } { assert!(t == (b == 1), "1 is true"); }
}}
panics! { pq_bool_refused, unwind = 34, {
    let b: u8 = kani::any();
    kani::assume(b > 1);
    refuse::<bool, u8>(b);
}}
macro_rules! any_bits { ($($n:ident: $T:ty, $U:ty;)*) => { $(
    harness! { $n, unwind = 34, { decide::<$T, $U>(kani::any(), true); }}
)* }}
any_bits! {
    pq_u8: u8, u8; pq_u16: u16, u16; pq_u32: u32, u32; pq_u64: u64, u64; pq_usize: usize, usize;
    pq_i8: i8, i8; pq_i16: i16, i16; pq_i32: i32, i32; pq_i64: i64, i64; pq_isize: isize, isize;
    pq_f32: f32, u32; pq_f64: f64, u64;
    pq_c_char: safer_ffi::c_char, u8; 
    pq_const_ptr: *const u64, usize; pq_mut_ptr: *mut u64, usize; pq_plain_ptr_ptr: *const *mut bool, usize;
    pq_const_ptr_struct: *const Flags, usize;
    pq_opt_ref: Option<&'static u8>, usize;
}

/// A C struct with restrictions of its own, of alignment 8.
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Flags { a: bool, n: u64, b: bool }

/// Non-null, suitably aligned, nothing else.
fn pointer<P: ReprC, T>() {
    let a: usize = kani::any();
    decide::<P, usize>(a, a != 0 && a % align_of::<T>() == 0);
}
macro_rules! pointers { ($($n:ident: $T:ty;)*) => { $(
    harness! { $n, unwind = 34, {
        pointer::<&'static $T, $T>();
        pointer::<&'static mut $T, $T>();
        pointer::<core::ptr::NonNull<$T>, $T>();
        pointer::<NonNullRef<$T>, $T>();
        pointer::<NonNullMut<$T>, $T>();
        pointer::<NonNullOwned<$T>, $T>();
        pointer::<Out<'static, $T>, $T>();
        pointer::<ManuallyDropBox<$T>, $T>();
    }}
)* }}
/// A box that is not dropped by these harnesses (its address is arbitrary).
type ManuallyDropBox<T> = Keep<repr_c::Box<T>>;
#[repr(transparent)]
pub struct Keep<B>(ManuallyDrop<B>);
unsafe impl<B: ReprC> ReprC for Keep<B> {
    type CLayout = B::CLayout;
    fn is_valid(it: &B::CLayout) -> bool { B::is_valid(it) }
}
pointers! {
    pq_ptr_u8: u8; pq_ptr_bool: bool; pq_ptr_u16: u16; pq_ptr_u32: u32; pq_ptr_u64: u64; pq_ptr_f64: f64;
    pq_ptr_struct: Flags; pq_ptr_ptr: &'static u8; pq_ptr_array: [u32; 3]; pq_ptr_tuple: Tuple2<u8, u16>;
}
macro_rules! refuses { ($($n:ident: $T:ty, $U:ty, |$b:ident| $bad:expr;)*) => { $(
    panics! { $n, unwind = 34, {
        let $b: $U = kani::any();
        kani::assume($bad);
        refuse::<$T, $U>($b);
    }}
)* }}
refuses! {
    pq_ref_refused: &'static u64, usize, |a| a == 0 || a % 8 != 0;
    pq_mut_refused: &'static mut u32, usize, |a| a == 0 || a % 4 != 0;
    pq_out_refused: Out<'static, u16>, usize, |a| a == 0 || a % 2 != 0;
    pq_box_refused: repr_c::Box<u64>, usize, |a| a == 0 || a % 8 != 0;
    pq_fn_refused: extern "C" fn(), usize, |a| a == 0;
    pq_slice_refused: slice_ref<'static, u64>, [usize; 2], |s| s[0] == 0 || s[0] % 8 != 0;
    pq_struct_refused: Pair, [u8; 2], |s| s[0] > 1;
    pq_array_refused: [bool; 1], [u8; 1], |s| s[0] > 1;
}

/// Fat pointers: the pointer part decides, for any length.
fn fat<S: ReprC, T>() {
    let s: [usize; 2] = kani::any();
    decide::<S, [usize; 2]>(s, s[0] != 0 && s[0] % align_of::<T>() == 0);
}
macro_rules! fats { ($($n:ident: $T:ty;)*) => { $(
    harness! { $n, unwind = 34, {
        fat::<slice_ref<'static, $T>, $T>();
        fat::<slice_mut<'static, $T>, $T>();
        fat::<slice_raw<$T>, $T>();
        fat::<Keep<slice_boxed<$T>>, $T>();
        let v: [usize; 3] = kani::any();
        decide::<Keep<repr_c::Vec<$T>>, [usize; 3]>(v, v[0] != 0 && v[0] % align_of::<$T>() == 0);
    }}
)* }}
fats! { pq_slice_u8: u8; pq_slice_u16: u16; pq_slice_u64: u64; pq_slice_struct: Flags; pq_slice_bool: bool; }
harness! { pq_strings, unwind = 34, {
    fat::<str_ref<'static>, u8>();
    fat::<Keep<str_boxed>, u8>();
    let v: [usize; 3] = kani::any();
    decide::<Keep<repr_c::String>, [usize; 3]>(v, v[0] != 0);
    pointer::<char_p::Ref<'static>, u8>();
    pointer::<char_p::Raw, u8>();
    pointer::<Keep<char_p::Box>, u8>();
}}

/// Function pointers of every arity.
macro_rules! functions { ($($n:ident: $($A:ty),*;)*) => { $(
    harness! { $n, unwind = 34, {
        let a: usize = kani::any();
        decide::<extern "C" fn($($A),*) -> u8, usize>(a, a != 0);
        let a: usize = kani::any();
        decide::<unsafe extern "C" fn($($A),*) -> u8, usize>(a, a != 0);
        let a: usize = kani::any();
        decide::<extern "C" fn($($A),*), usize>(a, a != 0);
        let a: usize = kani::any();
        decide::<Option<extern "C" fn($($A),*)>, usize>(a, true);
        let a: usize = kani::any();
        decide::<Option<unsafe extern "C" fn($($A),*) -> *const u8>, usize>(a, true);
    }}
)* }}
functions! {
    pq_fn_0: ; pq_fn_1: u8; pq_fn_2: u8, u16; pq_fn_3: u8, u16, u32; pq_fn_4: u8, u16, u32, u64;
    pq_fn_5: u8, u16, u32, u64, i8; pq_fn_6: u8, u16, u32, u64, i8, i16; pq_fn_7: u8, u16, u32, u64, i8, i16, i32;
    pq_fn_8: u8, u16, u32, u64, i8, i16, i32, i64; pq_fn_9: u8, u16, u32, u64, i8, i16, i32, i64, bool;
}

/// Arrays: every element.
fn array<const N: usize>() where [bool; N]: ReprC {
    let b: [u8; N] = kani::any();
    let mut legal = true;
    let mut i = 0;
    while i < N { legal &= b[i] <= 1; i += 1; }
    decide::<[bool; N], [u8; N]>(b, legal);
}
harness! { pq_array_1, unwind = 34, { array::<1>() }}
harness! { pq_array_2, unwind = 34, { array::<2>() }}
harness! { pq_array_3, unwind = 34, { array::<3>() }}
harness! { pq_array_4, unwind = 34, { array::<4>() }}
harness! { pq_array_7, unwind = 34, { array::<7>() }}
harness! { pq_array_16, unwind = 34, { array::<16>() }}
harness! { pq_array_32, unwind = 34, { array::<32>() }}
harness! { pq_array_50, unwind = 52, { array::<50>() }}
harness! { pq_array_of_refs, unwind = 34, {
    let b: [usize; 3] = kani::any();
    decide::<[&'static u16; 3], [usize; 3]>(b, b[0] != 0 && b[1] != 0 && b[2] != 0 && (b[0] | b[1] | b[2]) % 2 == 0);
}}
harness! { pq_array_of_arrays, unwind = 34, {
    let b: [[u8; 2]; 3] = kani::any();
    decide::<[[bool; 2]; 3], [[u8; 2]; 3]>(b, b[0][0] < 2 && b[0][1] < 2 && b[1][0] < 2 && b[1][1] < 2 && b[2][0] < 2 && b[2][1] < 2);
}}
harness! { pq_array_of_ints, unwind = 34, { decide::<[u32; 6], [u32; 6]>(kani::any(), true); }}

/// Structs: every field that is not zero-sized.
#[derive_ReprC]
#[repr(C)]
pub struct Pair { a: bool, n: u8 }
#[derive_ReprC]
#[repr(C)]
pub struct Three { a: bool, b: bool, c: bool }
#[derive_ReprC]
#[repr(C)]
pub struct Marked { marker: core::marker::PhantomData<u64>, a: bool, other: core::marker::PhantomData<bool>, b: bool }
#[derive_ReprC]
#[repr(C)]
pub struct Nested { p: Pair, x: [bool; 2], n: i8 }
#[derive_ReprC]
#[repr(C)]
pub struct Holder<'a, T: 'a> where T: ReprC { first: T, inner: &'a T, n: usize }
#[derive_ReprC]
#[repr(transparent)]
pub struct Wrapped(bool);
#[derive_ReprC]
#[repr(transparent)]
pub struct WrappedRef<'a>(&'a u32);
harness! { pq_struct_pair, unwind = 34, {
    let b: [u8; 2] = kani::any();
    decide::<Pair, [u8; 2]>(b, b[0] < 2);
}}
harness! { pq_struct_three, unwind = 34, {
    let b: [u8; 3] = kani::any();
    decide::<Three, [u8; 3]>(b, b[0] < 2 && b[1] < 2 && b[2] < 2);
}}
harness! { pq_struct_marked, unwind = 34, {
    let b: [u8; 2] = kani::any();
    decide::<Marked, [u8; 2]>(b, b[0] < 2 && b[1] < 2);
}}
harness! { pq_struct_nested, unwind = 34, {
    let b: [u8; 5] = kani::any();
    decide::<Nested, [u8; 5]>(b, b[0] < 2 && b[2] < 2 && b[3] < 2);
}}
harness! { pq_struct_generic, unwind = 34, {
    let b: [usize; 3] = kani::any();
    decide::<Holder<'static, &'static u64>, [usize; 3]>(b, b[0] != 0 && b[0] % 8 == 0 && b[1] != 0 && b[1] % 8 == 0);
}}
harness! { pq_struct_transparent, unwind = 34, {
    let b: u8 = kani::any();
    decide::<Wrapped, u8>(b, b < 2);
    pointer::<WrappedRef<'static>, u32>();
}}
harness! { pq_tuples, unwind = 34, {
    let b: [u8; 6] = kani::any();
    let ok = |n: usize| -> bool { let mut r = b[0] < 2; if n > 1 { r &= b[1] < 2 } if n > 2 { r &= b[2] < 2 } if n > 3 { r &= b[3] < 2 } if n > 4 { r &= b[4] < 2 } if n > 5 { r &= b[5] < 2 } r };
    decide::<Tuple1<bool>, [u8; 1]>([b[0]], ok(1));
    decide::<Tuple2<bool, bool>, [u8; 2]>([b[0], b[1]], ok(2));
    decide::<Tuple3<bool, bool, bool>, [u8; 3]>([b[0], b[1], b[2]], ok(3));
    decide::<Tuple4<bool, bool, bool, bool>, [u8; 4]>([b[0], b[1], b[2], b[3]], ok(4));
    decide::<Tuple5<bool, bool, bool, bool, bool>, [u8; 5]>([b[0], b[1], b[2], b[3], b[4]], ok(5));
    decide::<Tuple6<bool, bool, bool, bool, bool, bool>, [u8; 6]>(b, ok(6));
}}

/// Structs and arrays of references are decided by every one of them, wherever it lies.
harness! { pq_struct_padded, unwind = 34, {
    let (a, n, b): (u8, u64, u8) = (kani::any(), kani::any(), kani::any());
    let c = Flags_Layout { a: raw::<bool, u8>(a), n, b: raw::<bool, u8>(b) };
    assert!(Flags::is_valid(&c) == (a < 2 && b < 2));
    if let Some(f) = unsafe { from_raw::<Flags>(c) } {
        assert!(a < 2 && b < 2 && f.a == (a == 1) && f.n == n && f.b == (b == 1), "the same fields");
    } else { assert!(a > 1 || b > 1) }
}}
