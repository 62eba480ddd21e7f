//! L03: fieldless enums.  The oracle lists the discriminants by the rules of the language.
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, ReprC};
use safer_ffi::prelude::*;
use core::mem::size_of;

macro_rules! enums { ($($h:ident $refused:ident: #[repr($r:ident)] $E:ident : $I:ty { $($V:ident $(= $d:expr)? => $is:expr),* $(,)? })*) => { $(
    #[derive_ReprC]
    #[repr($r)]
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    #[allow(non_camel_case_types)]
    pub enum $E { $($V $(= $d)?),* }
    harness! { $h, unwind = 4, {
        type L = CLayoutOf<$E>;
        assert!(size_of::<L>() == size_of::<$I>() && size_of::<$E>() == size_of::<$I>(), "the size of the declared integer");
        assert!(core::mem::align_of::<L>() == core::mem::align_of::<$I>());
        let i: $I = kani::any();
        let listed: Option<$E> = None $( .or(if i == $is { Some($E::$V) } else { None }) )*;
        let raw = L::from(i);
        assert!(unsafe { core::mem::transmute_copy::<L, $I>(&raw) } == i, "the raw form is that integer");
        assert!($E::is_valid(&raw) == listed.is_some(), "accepted exactly when declared");
        assert!(unsafe { from_raw::<$E>(raw) } == listed, "and that very variant");
        $(
            assert!(unsafe { core::mem::transmute_copy::<L, $I>(&into_raw($E::$V)) } == $is, "the declared discriminant");
            assert!(unsafe { from_raw::<$E>(into_raw($E::$V)) } == Some($E::$V), "into raw and back");
            assert!(unsafe { from_raw_unchecked::<$E>(into_raw($E::$V)) } == $E::$V);
        )*
        // behind pointers, in arrays and in options
        if let Some(v) = listed {
            let r: &$E = unsafe { from_raw(into_raw(&v)) }.unwrap();
            assert!(*r == v);
            assert!(unsafe { from_raw::<[$E; 2]>([raw, raw]) }.is_some());
        } else {
            assert!(unsafe { from_raw::<[$E; 2]>([unsafe { into_raw([$($E::$V),*][0]) }, raw]) }.is_none());
        }
    }}
    panics! { $refused, unwind = 4, {
        let i: $I = kani::any();
        $( kani::assume(i != $is); )*
        let _ = unsafe { from_raw_unchecked::<$E>(CLayoutOf::<$E>::from(i)) };
    }}
)* }}
enums! {
    pq_u8 pq_u8_refused: #[repr(u8)] Plain: u8 { A => 0, B => 1, C => 2 }
    pq_u8_explicit pq_u8_explicit_refused: #[repr(u8)] MyBool: u8 { False = 42 => 42, True => 43 }
    pq_single pq_single_refused: #[repr(u8)] Single: u8 { Only => 0 }
    pq_last pq_last_refused: #[repr(u8)] Last: u8 { A = 254 => 254, B => 255, C = 0 => 0 }
    pq_i8 pq_i8_refused: #[repr(i8)] Signed: i8 { Neg = -1 => -1, Zero => 0, One => 1, Five = 5 => 5, Min = -128 => -128, Next => -127, Max = 127 => 127 }
    pq_u16 pq_u16_refused: #[repr(u16)] Wide: u16 { A = 0x100 => 256, B = 0xffff => 65535, C = 1 => 1, D => 2 }
    pq_i16 pq_i16_refused: #[repr(i16)] Wide2: i16 { A = -300 => -300, B => -299, C = 32767 => 32767 }
    pq_u32 pq_u32_refused: #[repr(u32)] Big: u32 { A = 1 << 31 => 0x8000_0000, B => 0x8000_0001, C = 7 => 7 }
    pq_i32 pq_i32_refused: #[repr(i32)] Errno: i32 { Ok => 0, Fail = -1 => -1, Min = i32::MIN => i32::MIN, Max = i32::MAX => i32::MAX, Other = -70000 => -70000 }
    pq_u64 pq_u64_refused: #[repr(u64)] Huge: u64 { A = u64::MAX => u64::MAX, B = 1 << 40 => 1 << 40, C => (1 << 40) + 1, D = 0 => 0 }
    pq_i64 pq_i64_refused: #[repr(i64)] Huge2: i64 { A = i64::MIN => i64::MIN, B => i64::MIN + 1, C = -1 => -1, D => 0, E = 1 << 33 => 1 << 33 }
    pq_descending pq_descending_refused: #[repr(u8)] Down: u8 { A = 9 => 9, B = 5 => 5, C => 6, D = 1 => 1, E => 2, F => 3 }
    pq_names pq_names_refused: #[repr(u8)] Names: u8 { None => 0, Some => 1, Ok = 4 => 4, Err => 5, u8 = 9 => 9, bool => 10, Int => 11, it => 12, _private => 13 }
    pq_c pq_c_refused: #[repr(C)] CInt: i32 { A => 0, B = -5 => -5, C => -4 }
    pq_many pq_many_refused: #[repr(u8)] Many: u8 { A => 0, B => 1, C => 2, D => 3, E => 4, F => 5, G => 6, H => 7, I => 8, J => 9, K => 10, L => 11, M => 12, N => 13, O => 14, P = 20 => 20, Q => 21 }
}
const BASE: u8 = 40;
enums! { pq_const pq_const_refused: #[repr(u8)] FromConst: u8 { A = BASE => 40, B = BASE + 5 => 45, C => 46, D = b'x' => 120 } }
enums! { pq_shadow pq_shadow_refused: #[repr(u8)] Shadow: u8 { discriminant = 3 => 3, other => 4 } }
