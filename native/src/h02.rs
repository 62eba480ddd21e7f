//! The generated C header, compiled by a C compiler: what C says about each type, constant and function is what Rust says.
use safer_ffi::headers::{builder, languages::C, HashSetDefiner, Language};
use safer_ffi::layout::{CLayoutOf, CType, ReprC};
use safer_ffi::prelude::*;
use std::fmt::Write;
use std::mem::{align_of, size_of};

#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Point { pub x: u8, pub y: u64, pub z: [u16; 3] }
#[derive_ReprC] #[repr(C)] pub struct Gen<T: ReprC> { pub p: *const T, pub n: i16, pub q: Point }
/// Documented
#[derive_ReprC] #[repr(C)] pub struct Many<'a> { /** a field */ pub cb: Option<unsafe extern "C" fn(Point, *mut u8) -> i32>, pub b: bool, pub f: f32, pub d: f64, pub s: c_slice::Ref<'a, u16>, pub c: char_p::Ref<'a>, pub o: Option<&'a Point>, pub m: [[u8; 5]; 2] }
#[derive_ReprC] #[repr(opaque)] pub struct Hidden { pub v: Vec<u8> }
const BIG: u64 = 1 << 63;
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy)] pub enum Eu8 { A = !0, Bc = 1 + 1, D, LastOne = 0x10 }
#[derive_ReprC] #[repr(i8)] #[derive(Clone, Copy)] pub enum Ei8 { Low = -128, NoValue, Top = 127 }
#[derive_ReprC] #[repr(u16)] #[derive(Clone, Copy)] pub enum Eu16 { First, ABCd1, Http2Ok = 0x1_00, Next, Max = 0xffff }
#[derive_ReprC] #[repr(i16)] #[derive(Clone, Copy)] pub enum Ei16 { Min = i16::MIN, Max = i16::MAX }
#[derive_ReprC] #[repr(u32)] #[derive(Clone, Copy)] pub enum Eu32 { Zero, Big = u32::MAX }
#[derive_ReprC] #[repr(i32)] #[derive(Clone, Copy)] pub enum Ei32 { Min = i32::MIN, M, Zero = 0, P }
#[derive_ReprC] #[repr(u64)] #[derive(Clone, Copy)] pub enum Eu64 { Big = BIG, Max = !0 }
#[derive_ReprC] #[repr(i64)] #[derive(Clone, Copy)] pub enum Ei64 { Min = i64::MIN + 1, Max = i64::MAX }
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub enum Plain { One = 1, Two, Ten = 10 }

#[ffi_export] pub const VN_U8: u8 = 255;
#[ffi_export] pub const VN_I8: i8 = -128;
#[ffi_export] pub const VN_U16: u16 = 65_535;
#[ffi_export] pub const VN_I16: i16 = -32_768;
#[ffi_export] pub const VN_U32: u32 = u32::MAX;
#[ffi_export] pub const VN_I32: i32 = -7;
#[ffi_export] pub const VN_U64: u64 = u64::MAX - 1;
#[ffi_export] pub const VN_I64: i64 = -(1 << 62);
#[ffi_export] pub const VN_USIZE: usize = 1 << 40;
#[ffi_export] pub const VN_BOOL: bool = true;
#[ffi_export] pub const VN_F64: f64 = -2.5;
#[ffi_export(untyped)] pub const VN_RAW: u32 = 4_000_000_000;
#[ffi_export] pub fn vn_nothing() {}
#[ffi_export] pub fn vn_scalars(a: u8, b: i16, c: u32, d: i64, e: usize, f: f32, g: f64, h: bool) -> u64 { let _ = (a, b, c, d, e, f, g, h); 0 }
#[ffi_export] pub fn vn_ptrs(p: &Point, q: &mut Point, r: *const u8, s: *mut Eu8, h: repr_c::Box<Hidden>) -> Option<repr_c::Box<Hidden>> { let _ = (p, q, r, s); Some(h) }
#[ffi_export] pub fn vn_values(p: Point, e: Ei8, v: repr_c::Vec<u16>) -> Point { let _ = (e, v); p }
#[ffi_export] pub fn vn_callback(f: unsafe extern "C" fn(Point) -> Ei32) -> Option<unsafe extern "C" fn(u8)> { let _ = f; None }
#[ffi_export(rename = "vn_other_name")] pub fn vn_renamed(a: [u32; 4]) -> i8 { let _ = a; 0 }
#[ffi_export] pub fn vn_string(a: char_p::Ref<'_>, b: char_p::Box) -> char_p::Box { let _ = a; b }

const PRE: &str = "#include <stddef.h>\n#include <sys/types.h>\n#define SAME(a, b) __builtin_types_compatible_p(a, b)\n";
/// Compiles; what the compiler rejects is the failure.
fn compile(text: &str) {
    let dir = std::env::temp_dir().join(format!("vnative-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let f = dir.join("t.c");
    std::fs::write(&f, text).unwrap();
    let out = std::process::Command::new("gcc").args(["-std=gnu11", "-fsyntax-only", "-w"]).arg(&f).output().unwrap();
    std::fs::remove_dir_all(&dir).unwrap();
    let err = String::from_utf8_lossy(&out.stderr);
    let shown: Vec<&str> = err.lines().filter(|l| l.contains("error")).take(4).collect();
    assert!(out.status.success(), "the C compiler says: {}", shown.join(" / "));
}
fn header() -> String {
    let mut out = Vec::new();
    builder().with_guard("VN_H").to_writer(&mut out).generate().unwrap();
    String::from_utf8(out).unwrap()
}
/// `define_self` of several types through one definer.
struct Defs { out: Vec<u8>, asserts: String }
impl Defs {
    fn new() -> Defs { Defs { out: Vec::new(), asserts: String::new() } }
    fn add(&mut self, set: &mut std::collections::HashSet<String>, f: &dyn Fn(&mut dyn safer_ffi::headers::Definer)) {
        let mut d = HashSetDefiner { defines_set: std::mem::take(set), out: &mut self.out };
        f(&mut d);
        *set = d.defines_set;
    }
    fn ty<R: ReprC>(&mut self, set: &mut std::collections::HashSet<String>) -> String {
        self.add(set, &|d| <CLayoutOf<R> as CType>::define_self(&C, d).unwrap());
        let n = <CLayoutOf<R> as CType>::name(&C).to_string();
        let var = <CLayoutOf<R> as CType>::name_wrapping_var(&C, "it").to_string();
        let k = self.asserts.len();
        writeln!(self.asserts, "typedef struct {{ {var}; }} w{k};").unwrap();
        writeln!(self.asserts, "_Static_assert(sizeof(w{k}) == {} && _Alignof(w{k}) == {}, \"size and alignment of {n}\");", size_of::<R>(), align_of::<R>()).unwrap();
        n
    }
    fn compile(self) { compile(&format!("{PRE}{}\n{}", String::from_utf8(self.out).unwrap(), self.asserts)) }
}
macro_rules! basics {($($t:ty: $sign:literal),*) => {
    fn basic() {
        let (mut d, mut set) = (Defs::new(), Default::default());
        $(
            let n = d.ty::<$t>(&mut set);
            writeln!(d.asserts, "_Static_assert((({n}) -1 < ({n}) 0) == {}, \"signedness of {n}\");", $sign).unwrap();
        )*
        d.compile()
    }
}}
basics! { u8: 0, u16: 0, u32: 0, u64: 0, usize: 0, i8: 1, i16: 1, i32: 1, i64: 1, isize: 1, f32: 1, f64: 1, bool: 0 }
fn compound() {
    let (mut d, mut set) = (Defs::new(), Default::default());
    macro_rules! all {($($t:ty),* $(,)?) => { $( d.ty::<$t>(&mut set); )* }}
    all! { *const u8, *mut u64, &Point, &mut Point, repr_c::Box<u16>, Option<&u8>, [u8; 1], [u64; 3], [Point; 2], [[u16; 3]; 4], [*const u8; 5], [u8; 256], [u16; 1024],
           unsafe extern "C" fn(), Option<extern "C" fn(u8) -> u64>, extern "C" fn(*const Point, Point) -> Point,
           Point, Gen<u8>, Gen<Point>, Gen<Gen<u16>>, Many<'static>, c_slice::Ref<'static, Point>, c_slice::Box<u8>, repr_c::Vec<Point>, repr_c::String, str::Ref<'static>, char_p::Ref<'static>, char_p::Box,
           Eu8, Ei8, Eu16, Ei16, Eu32, Ei32, Eu64, Ei64, Plain }
    d.compile()
}
fn offsets() {
    let (mut d, mut set) = (Defs::new(), Default::default());
    macro_rules! off {($($t:ty: $($f:ident),*;)*) => { $({
        let n = d.ty::<$t>(&mut set);
        let u = std::mem::MaybeUninit::<$t>::uninit();
        $(
            let o = unsafe { std::ptr::addr_of!((*u.as_ptr()).$f) as usize } - u.as_ptr() as usize;
            writeln!(d.asserts, "_Static_assert(offsetof({n}, {0}) == {o}, \"offset of {0}\");", stringify!($f)).unwrap();
        )*
    })* }}
    off! { Point: x, y, z; Gen<u64>: p, n, q; Many<'static>: cb, b, f, d, s, c, o, m; }
    d.compile()
}
fn arrays() {
    let (mut d, mut set) = (Defs::new(), Default::default());
    macro_rules! len {($($t:ty, $n:literal;)*) => { $({
        let n = d.ty::<[$t; $n]>(&mut set);
        writeln!(d.asserts, "_Static_assert(sizeof((({n} *) 0)->idx) / sizeof((({n} *) 0)->idx[0]) == {}, \"length of {n}\");", $n).unwrap();
    })* }}
    len! { u8, 1; u8, 2; u8, 3; u16, 7; u32, 16; u64, 31; u8, 32; Point, 10; *const u8, 9; u8, 64; u8, 100; u8, 128; u8, 256; u16, 512; u8, 1024; [u8; 4], 6; [Point; 2], 11; }
    d.compile()
}
fn discriminants() {
    let (mut d, mut set) = (Defs::new(), Default::default());
    macro_rules! dis {($($e:ident as $i:ty { $($v:ident $c:literal),* })*) => { $({
        let n = d.ty::<$e>(&mut set);
        $( writeln!(d.asserts, "_Static_assert({0} == ({n}) {1}{2}, \"{0}\");", $c, ($e::$v as $i).wrapping_add(1), if <$i>::MIN == 0 { "ull - 1" } else { "ll - 1" }).unwrap(); )*
    })* }}
    dis! {
        Eu8 as u8 { Bc "EU8_BC", D "EU8_D", LastOne "EU8_LAST_ONE" }
        Ei8 as i8 { Low "EI8_LOW", NoValue "EI8_NO_VALUE" }
        Eu16 as u16 { First "EU16_FIRST", ABCd1 "EU16_A_B_CD1", Http2Ok "EU16_HTTP2_OK", Next "EU16_NEXT" }
        Ei16 as i16 { Min "EI16_MIN" }
        Eu32 as u32 { Zero "EU32_ZERO" }
        Ei32 as i32 { Min "EI32_MIN", M "EI32_M", Zero "EI32_ZERO", P "EI32_P" }
        Eu64 as u64 { Big "EU64_BIG" }
        Ei64 as i64 { Min "EI64_MIN" }
        Plain as i32 { One "PLAIN_ONE", Two "PLAIN_TWO", Ten "PLAIN_TEN" }
    }
    d.asserts.push_str("_Static_assert(EU8_A == 255 && EI8_TOP == 127 && EU16_MAX == 65535 && EI16_MAX == 32767 && EU32_BIG == 4294967295u && EU64_MAX == 18446744073709551615ull && EI64_MAX == 9223372036854775807ll, \"extreme values\");\n");
    d.compile()
}
fn constants() {
    compile(&format!("{PRE}{}\n{}", header(), "
        #define IS(c, v, t) _Static_assert((c) == (v), #c); _Static_assert(SAME(__typeof__(c), t), \"type of \" #c);
        IS(VN_U8, 255, uint8_t) IS(VN_I8, -128, int8_t) IS(VN_U16, 65535, uint16_t) IS(VN_I16, -32768, int16_t)
        IS(VN_U32, 4294967295u, uint32_t) IS(VN_I32, -7, int32_t) IS(VN_U64, 18446744073709551614ull, uint64_t) IS(VN_I64, -4611686018427387904ll, int64_t)
        IS(VN_USIZE, 1099511627776ull, size_t) IS(VN_BOOL, 1, bool) IS(VN_F64, -2.5, double)
        _Static_assert(VN_RAW == 4000000000u, \"VN_RAW\");
        #if VN_RAW != 4000000000
        #error VN_RAW in the preprocessor
        #endif
    "))
}
fn functions() {
    compile(&format!("{PRE}{}\n{}", header(), "
        #define FN(f, ...) _Static_assert(SAME(__typeof__(f), __VA_ARGS__), #f);
        FN(vn_nothing, void (void))
        FN(vn_scalars, uint64_t (uint8_t, int16_t, uint32_t, int64_t, size_t, float, double, bool))
        FN(vn_ptrs, Hidden_t * (Point_t const *, Point_t *, uint8_t const *, Eu8_t *, Hidden_t *))
        FN(vn_values, Point_t (Point_t, Ei8_t, Vec_uint16_t))
        FN(vn_callback, void (*(Ei32_t (*)(Point_t)))(uint8_t))
        FN(vn_other_name, int8_t (uint32_4_array_t))
        FN(vn_string, char * (char const *, char *))
    "))
}
fn once() {
    let h = header();
    for f in ["vn_nothing (", "vn_scalars (", "vn_ptrs (", "vn_values (", "vn_callback (", "vn_other_name (", "vn_string (", "#define VN_U8 ", "#define VN_RAW ", "} Point_t;", "Hidden_t;", "} Vec_uint16_t;"] {
        assert_eq!(h.matches(f).count(), 1, "definitions of `{f}`");
    }
    assert!(h == header(), "generated twice, with the same result");
    let _ = Language::C;
}
pub const CASES: &[(&str, fn(), Option<&str>)] = &[
    ("basic", basic, None), ("compound", compound, None), ("offsets", offsets, None), ("arrays", arrays, None), ("discriminants", discriminants, None),
    ("constants", constants, None), ("functions", functions, None), ("once", once, None),
];
