//! H01: header generation defines every item once, components first, and reports every error.
//!
//! The text of a definition is `HeaderLanguage`'s business (H02); here its functions are replaced by their contract:
//! "emits exactly one definition of `self_ty`, or reports an error".  Ghost state: the set of defined names and the
//! log of what was emitted, in order.
use crate::common::TAG;
use safer_ffi::headers::languages::{EnumVariant, FunctionArg, HeaderLanguage, PhantomCType, StructField, C};
use safer_ffi::headers::{Definer, Language};
use safer_ffi::layout::{CLayoutOf, CType, OpaqueKind, ReprC};
use safer_ffi::prelude::*;
use safer_ffi::ඞ::inventory::{hash, ErasedNode, Submitted};
use std::{fmt, io};

// ---- ghost state ----------------------------------------------------------------------------
use crate::ghostfmt::{self, is};
/// Names that can come up in a harness; a name is represented by its index here.
static mut NAMES: (&[&str], u64) = (&[], TAG);
pub fn idx(s: &str) -> usize {
    let mut i = 0;
    unsafe {
        while i < NAMES.0.len() {
            if is(s, NAMES.0[i]) { return i }
            i += 1
        }
    }
    panic!("an unexpected name is defined")
}
/// The set of names defined so far (a bit each).
static mut SET: (u32, u64) = (0, TAG);
static mut LOG: ([u8; 16], u64) = ([0; 16], TAG);
static mut LEN: (usize, u64) = (0, TAG);
/// Fail the n-th emission from now (255: none).
static mut FAIL: (u8, u64) = (255, TAG);
fn emit(name: usize) -> io::Result<()> {
    unsafe {
        LOG.0[LEN.0] = name as u8;
        LEN.0 += 1;
        if FAIL.0 == 0 { return Err(io::ErrorKind::WriteZero.into()) }
        FAIL.0 = FAIL.0.wrapping_sub(1);
    }
    Ok(())
}
/// A definer that does what `Definer` asks for: a set of names, and a sink.
pub struct Ghost;
pub struct W;
impl io::Write for W {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> { panic!("not written piecewise") }
    fn write_fmt(&mut self, _: fmt::Arguments<'_>) -> io::Result<()> { emit(99) }
    fn write_all(&mut self, _: &[u8]) -> io::Result<()> { emit(99) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
static mut WRITER: W = W;
impl Definer for Ghost {
    fn insert(&mut self, name: &str) -> bool {
        let bit = 1 << idx(name);
        unsafe { let new = SET.0 & bit == 0; SET.0 |= bit; new }
    }
    fn out(&mut self) -> &mut dyn io::Write { unsafe { &mut WRITER } }
}


// ---- a component: any C type --------------------------------------------------------------------
macro_rules! component {($($G:ident $s:literal $t:ty),*) => {$(
    #[repr(C)] #[derive(Clone, Copy)]
    pub struct $G($t);
    unsafe impl CType for $G {
        type OPAQUE_KIND = OpaqueKind::Concrete;
        fn short_name() -> String { $s.into() }
        fn define_self__impl(_: &dyn HeaderLanguage, _: &mut dyn Definer) -> io::Result<()> { emit(idx(concat!($s, "_t"))) }
    }
    safer_ffi::layout::from_CType_impl_ReprC! { $G }
)*}}
component! { G1 "G1" u32, G2 "G2" u8, G3 "G3" u64 }

// ---- contract of `HeaderLanguage`: one definition of the item, or an error ------------------------
/// What the fields / arguments of the item must be: (name, index of the C type).
static mut FIELDS: (&[(&str, &str)], u64) = (&[], TAG);
static mut DOCS: (&[&str], u64) = (&[], TAG);
fn docs(d: &[&str]) { unsafe { assert!(d.len() == DOCS.0.len()); let mut i = 0; while i < d.len() { assert!(is(d[i], DOCS.0[i])); i += 1 } } }
fn s_emit_struct(_: &C, _: &mut dyn Definer, d: &[&str], t: &dyn PhantomCType, fields: &[StructField<'_>]) -> io::Result<()> {
    docs(d);
    if idx(&t.name(&C)) == 0 { unsafe {
        assert!(fields.len() == FIELDS.0.len());
        let mut i = 0;
        while i < fields.len() { assert!(is(fields[i].name, FIELDS.0[i].0) && is(&fields[i].ty.name(&C), FIELDS.0[i].1)); i += 1 }
    } }
    emit(idx(&t.name(&C)))
}
fn s_emit_opaque_type(_: &C, _: &mut dyn Definer, d: &[&str], t: &dyn PhantomCType) -> io::Result<()> { docs(d); emit(idx(&t.name(&C))) }
fn s_emit_simple_enum(_: &C, _: &mut dyn Definer, d: &[&str], t: &dyn PhantomCType, b: Option<&dyn PhantomCType>, v: &[EnumVariant<'_>]) -> io::Result<()> {
    docs(d);
    assert!(is(&b.unwrap().name(&C), "uint8_t"));
    unsafe {
        assert!(v.len() == FIELDS.0.len());
        let mut i = 0;
        while i < v.len() { assert!(is(v[i].name, FIELDS.0[i].0) && v[i].discriminant.is_some() == (FIELDS.0[i].1.len() > 0)); i += 1 }
    }
    emit(idx(&t.name(&C)))
}
fn s_emit_function(_: &C, _: &mut dyn Definer, d: &[&str], name: &str, args: &[FunctionArg<'_>], ret: &dyn PhantomCType) -> io::Result<()> {
    docs(d);
    unsafe {
        assert!(args.len() + 1 == FIELDS.0.len());
        let mut i = 0;
        while i < args.len() { assert!(is(args[i].name, FIELDS.0[i].0) && is(&args[i].ty.name(&C), FIELDS.0[i].1)); i += 1 }
        assert!(is(&ret.name(&C), FIELDS.0[i].1));
    }
    emit(idx(name))
}
fn s_emit_constant(_: &C, _: &mut dyn Definer, d: &[&str], name: &str, ty: &dyn PhantomCType, skip_type: bool, _: &dyn fmt::Debug) -> io::Result<()> {
    docs(d);
    unsafe { assert!(is(name, FIELDS.0[0].0) && is(&ty.name(&C), FIELDS.0[0].1) && skip_type == (FIELDS.0.len() > 1)); }
    emit(idx(name))
}
macro_rules! h {
    ($(#[$m:meta])* $n:ident, unwind = $u:literal, $b:block) => {
        harness! {
            #[kani::stub(alloc::fmt::format, ghostfmt::s_format)]
            #[kani::stub(core::fmt::Formatter::pad, ghostfmt::s_pad)]
            #[kani::stub(core::fmt::Arguments::as_str, ghostfmt::s_as_str)]
            #[kani::stub(core::fmt::Arguments::from_str, ghostfmt::s_from_str)]
            #[kani::stub(alloc::string::String::push_str, ghostfmt::s_push_str)]
            #[kani::stub(<safer_ffi::headers::languages::C as safer_ffi::headers::languages::HeaderLanguage>::emit_struct, s_emit_struct)]
            #[kani::stub(<safer_ffi::headers::languages::C as safer_ffi::headers::languages::HeaderLanguage>::emit_opaque_type, s_emit_opaque_type)]
            #[kani::stub(<safer_ffi::headers::languages::C as safer_ffi::headers::languages::HeaderLanguage>::emit_simple_enum, s_emit_simple_enum)]
            #[kani::stub(<safer_ffi::headers::languages::C as safer_ffi::headers::languages::HeaderLanguage>::emit_function, s_emit_function)]
            #[kani::stub(<safer_ffi::headers::languages::C as safer_ffi::headers::languages::HeaderLanguage>::emit_constant, s_emit_constant)]
            $(#[$m])* $n, unwind = $u, { unsafe { $b } }
        }
    };
}

// ---- what must happen -----------------------------------------------------------------------------
/// An item: its name, what it needs, and whether writing it is an emission of its own name (`None`: it is a plain
/// write; `Some(false)`: it has no definition of its own).
enum Item { Named(&'static str, &'static [Item]), Written(&'static str, &'static [Item]), Inline(&'static [Item]), Export(&'static str, &'static [Item]) }
use Item::*;
static mut WLOG: ([u8; 16], u64) = ([0; 16], TAG);
static mut WLEN: (usize, u64) = (0, TAG);
static mut WSET: (u32, u64) = (0, TAG);
static mut WFAIL: (u8, u64) = (255, TAG);
fn w_emit(n: u8) -> bool {
    unsafe { WLOG.0[WLEN.0] = n; WLEN.0 += 1; if WFAIL.0 == 0 { return false } WFAIL.0 = WFAIL.0.wrapping_sub(1); true }
}
fn w_all(items: &[Item]) -> bool { let mut i = 0; while i < items.len() { if !want(&items[i]) { return false } i += 1 } true }
fn w_insert(n: &str) -> bool { unsafe { let bit = 1 << idx(n); let new = WSET.0 & bit == 0; WSET.0 |= bit; new } }
/// Defines an item the way the property says; `false`: an error is reported.
fn want(i: &Item) -> bool {
    match *i {
        Named(n, needs) => !w_insert(n) || (w_all(needs) && w_emit(idx(n) as u8)),
        Written(n, needs) => !w_insert(n) || (w_all(needs) && w_emit(99)),
        Inline(needs) => w_all(needs),
        Export(n, needs) => w_insert(n) && w_all(needs) && w_emit(idx(n) as u8),
    }
}
fn check(item: &Item, real: impl Fn(&mut Ghost) -> io::Result<()>) {
    unsafe {
        // any history: whatever has been defined before, wherever the output fails
        SET.0 = kani::any(); FAIL.0 = kani::any();
        WSET.0 = SET.0; WFAIL.0 = FAIL.0;
        let mut round = 0;
        while round < 2 {       // the second round finds everything defined that the first one got to
            let r = real(&mut Ghost);
            assert!(r.is_ok() == want(item), "an error is reported iff a definition or the output failed");
            std::mem::forget(r);
            assert!(SET.0 == WSET.0, "the names defined afterwards");
            assert!(LEN.0 == WLEN.0, "each item is emitted exactly once");
            let mut i = 0;
            while i < LEN.0 { assert!(LOG.0[i] == WLOG.0[i], "components before the items that need them"); i += 1 }
            round += 1
        }
    }
}
fn defines<T: ReprC>(item: &Item) { check(item, |d| <CLayoutOf<T> as CType>::define_self(&C, d)); }

// ---- define_once ------------------------------------------------------------------------------------
struct Any { called: usize }
impl Definer for Any {
    fn insert(&mut self, name: &str) -> bool { unsafe { assert!(self.called == 0 && LOG.0[0] == 0 && is(name, NAMES.0[0])); self.called = 1; LOG.0[1] == 1 } }
    fn out(&mut self) -> &mut dyn io::Write { panic!("nothing asked for the output") }
}
harness! { pq_define_once, unwind = 8, { unsafe {
    NAMES.0 = &["name"];
    let (new, ok): (bool, bool) = (kani::any(), kani::any());
    LOG.0[1] = new as u8;
    let mut d = Any { called: 0 };
    let me = &mut d as *mut Any as usize;
    let r = Definer_::define_once(&mut d, NAMES.0[0], ok, me);
    assert!(d.called == 1);
    assert!(LOG.0[0] == new as u8, "the definition is written iff the name is new");
    assert!(r.is_ok() == (ok || !new), "its error is reported");
    std::mem::forget(r);
}}}
struct Definer_;
impl Definer_ {
    fn define_once<D: Definer>(d: &mut D, name: &str, ok: bool, me: usize) -> io::Result<()> {
        d.define_once(name, &mut |d: &mut dyn Definer| {
            assert!(d as *mut dyn Definer as *mut () as usize == me);
            unsafe { LOG.0[0] += 1; }
            if ok { Ok(()) } else { Err(io::ErrorKind::WriteZero.into()) }
        })
    }
}

// ---- items --------------------------------------------------------------------------------------------
/// Doc of S
/// second line
#[derive_ReprC]
#[repr(C)]
pub struct S { pub a: G1, pub b: G2, pub c: G1 }
h! { pq_struct, unwind = 20, {
    NAMES.0 = &["S_t", "G1_t", "G2_t"]; DOCS.0 = &[" Doc of S", " second line"]; FIELDS.0 = &[("a", "G1_t"), ("b", "G2_t"), ("c", "G1_t")];
    defines::<S>(&Named("S_t", &[Named("G1_t", &[]), Named("G2_t", &[]), Named("G1_t", &[])]));
}}
#[derive_ReprC]
#[repr(C)]
pub struct P<T: ReprC> { pub p: T, pub g: G1 }
h! { pq_generic, unwind = 20, {
    NAMES.0 = &["P_G3_t", "G1_t", "G3_t"]; FIELDS.0 = &[("p", "G3_t"), ("g", "G1_t")];
    defines::<P<G3>>(&Named("P_G3_t", &[Named("G3_t", &[]), Named("G1_t", &[])]));
}}
#[derive_ReprC]
#[repr(C)]
pub struct N { pub p: P<G2>, pub q: G2 }
#[derive_ReprC]
#[repr(u8)]
pub enum E { A, B = 7 }
#[derive_ReprC]
#[repr(opaque)]
pub struct O { pub x: u32 }
h! { pq_enum, unwind = 20, {
    NAMES.0 = &["E_t", "__int_headers__"]; FIELDS.0 = &[("A", ""), ("B", "7")];
    defines::<E>(&Named("E_t", &[Written("__int_headers__", &[])]));
}}
h! { pq_opaque, unwind = 20, {
    NAMES.0 = &["O_t"];
    defines::<&'static O>(&Inline(&[Named("O_t", &[])]));
}}
h! { pq_array, unwind = 24, {
    NAMES.0 = &["G1_3_array_t", "G1_t"];
    defines::<[G1; 3]>(&Written("G1_3_array_t", &[Named("G1_t", &[])]));
}}
h! { pq_ptrs, unwind = 20, {
    NAMES.0 = &["G1_t", "G2_t"];
    defines::<*const G1>(&Inline(&[Named("G1_t", &[])]));
    defines::<*mut G2>(&Inline(&[Named("G2_t", &[])]));
    defines::<&'static *const G2>(&Inline(&[Named("G2_t", &[])]));
}}
h! { pq_fptr, unwind = 20, {
    NAMES.0 = &["G1_t", "G2_t", "G3_t"];
    defines::<Option<unsafe extern "C" fn(G1, G2) -> G3>>(&Inline(&[Named("G3_t", &[]), Named("G1_t", &[]), Named("G2_t", &[])]));
}}
h! { pt_nested, unwind = 20, {
    NAMES.0 = &["N_t", "P_G2_t", "G2_t", "G1_t"]; FIELDS.0 = &[("p", "P_G2_t"), ("q", "G2_t")];
    defines::<N>(&Named("N_t", &[Named("P_G2_t", &[Named("G2_t", &[]), Named("G1_t", &[])]), Named("G2_t", &[])]));
}}
h! { pq_bool, unwind = 20, {
    NAMES.0 = &["bool"];
    defines::<bool>(&Written("bool", &[]));
}}

// ---- exports --------------------------------------------------------------------------------------------
pub mod exp {
    use super::*;
    pub struct Exports;
    /// Doc of f
    #[ffi_export]
    pub fn f(a: G1, b: &G2) -> G3 { let _ = (a, b); loop {} }
    #[ffi_export]
    pub fn g() {}
    #[ffi_export(rename = "other")]
    pub fn h(x: G1) { let _ = x; }
    #[ffi_export]
    pub const K: u8 = 5;
    #[ffi_export(untyped)]
    pub const L: u8 = 5;
    #[ffi_export]
    #[derive_ReprC]
    #[repr(C)]
    pub struct X { pub a: G1 }
}
macro_rules! item { ($n:literal) => { <exp::Exports as Submitted<{ hash($n) }>>::ITEM } }
fn exports(name: &'static str, e: &'static safer_ffi::FfiExport, item: &Item) {
    assert!(is(e.name, name));
    check(item, |d| (e.gen_def)(d, Language::C));
}
h! { pq_export_fn, unwind = 20, {
    NAMES.0 = &["f", "G1_t", "G2_t", "G3_t"]; DOCS.0 = &[" Doc of f"]; FIELDS.0 = &[("a", "G1_t"), ("b", "G2_t const *"), ("", "G3_t")];
    exports("f", item!("f"), &Export("f", &[Named("G1_t", &[]), Named("G2_t", &[]), Named("G3_t", &[])]));
}}
h! { pq_export_unit, unwind = 20, {
    NAMES.0 = &["g"]; FIELDS.0 = &[("", "void")];
    exports("g", item!("g"), &Export("g", &[]));
}}
h! { pq_export_renamed, unwind = 20, {
    NAMES.0 = &["other", "G1_t"]; FIELDS.0 = &[("x", "G1_t"), ("", "void")];
    exports("other", item!("other"), &Export("other", &[Named("G1_t", &[])]));
}}
h! { pq_export_const, unwind = 20, {
    NAMES.0 = &["K", "__int_headers__"]; FIELDS.0 = &[("K", "uint8_t")];
    exports("K", item!("K"), &Export("K", &[Written("__int_headers__", &[])]));
}}
h! { pq_export_const_untyped, unwind = 20, {
    NAMES.0 = &["L", "__int_headers__"]; FIELDS.0 = &[("L", "uint8_t"), ("", "untyped")];
    exports("L", item!("L"), &Export("L", &[Written("__int_headers__", &[])]));
}}
h! { pq_export_type, unwind = 20, {
    NAMES.0 = &["X_t", "G1_t"]; FIELDS.0 = &[("a", "G1_t")];
    exports("X", item!("X"), &Named("X_t", &[Named("G1_t", &[])]));
}}

// ---- the whole header --------------------------------------------------------------------------------
static mut ORDER: ([u8; 8], u64) = ([0; 8], TAG);
static mut CALLS: (usize, u64) = (0, TAG);
fn called(i: u8) -> io::Result<()> { unsafe { ORDER.0[CALLS.0] = i; CALLS.0 += 1; } emit(i as usize) }
fn gen0(d: &mut dyn Definer, l: Language) -> io::Result<()> { assert!(l == Language::C && d as *mut dyn Definer as *mut () as usize == unsafe { ME.0 }); called(0) }
fn gen1(d: &mut dyn Definer, l: Language) -> io::Result<()> { assert!(l == Language::C && d as *mut dyn Definer as *mut () as usize == unsafe { ME.0 }); called(1) }
fn gen2(d: &mut dyn Definer, l: Language) -> io::Result<()> { assert!(l == Language::C && d as *mut dyn Definer as *mut () as usize == unsafe { ME.0 }); called(2) }
static mut ME: (usize, u64) = (0, TAG);
static mut LEFT: ([u8; 3], u64) = ([1; 3], TAG);
fn submit(e: &'static safer_ffi::FfiExport) {
    use safer_ffi::ඞ::inventory::Node;
    let node: &'static Node = Box::leak(Box::new(Node { value: e, next: core::cell::UnsafeCell::new(None) }));
    unsafe { e.submit(node) }
}
/// Three exports, the last two called `n1` and `n2`, submitted in any order.
unsafe fn whole(n1: &'static str, n2: &'static str, stable: bool) -> (bool, [u8; 3]) {
    use safer_ffi::FfiExport;
    static E0: FfiExport = FfiExport { name: "m", gen_def: gen0 };
    let e1: &'static FfiExport = Box::leak(Box::new(FfiExport { name: n1, gen_def: gen1 }));
    let e2: &'static FfiExport = Box::leak(Box::new(FfiExport { name: n2, gen_def: gen2 }));
    let mut order = [0u8; 3];
    let mut k = 0;
    while k < 3 {
        let i: u8 = kani::any();
        kani::assume((i as usize) < 3 && LEFT.0[i as usize] == 1);
        LEFT.0[i as usize] = 0;
        order[k] = i;
        submit(match i { 0 => &E0, 1 => e1, _ => e2 });
        k += 1
    }
    ghostfmt::KEEP.0 = false;
    FAIL.0 = kani::any();
    let fail = FAIL.0;
    ME.0 = &mut GHOST as *mut Ghost as usize;
    let r = safer_ffi::headers::builder().with_guard("G").with_text_after_guard("T").with_banner("B").with_stable_header(stable).generate_with_definer(&mut GHOST);
    let ok = r.is_ok();
    std::mem::forget(r);
    assert!(ok == (fail > 5), "an error is reported iff an export or the output failed");
    if ok { assert!(LEN.0 == 6 && CALLS.0 == 3, "each export is generated exactly once"); }
    // banner and prelude first, the exports next, the epilogue last
    assert!(LEN.0 == if fail < 6 { fail as usize + 1 } else { 6 });
    let mut i = 0;
    while i < LEN.0 { assert!((LOG.0[i] == 99) == (i < 2 || i == 5)); i += 1 }
    (ok, order)
}
static mut GHOST: Ghost = Ghost;
h! { bq_stable, unwind = 16, {
    let (ok, _) = whole("z", "a", true);
    if ok { assert!(ORDER.0[0] == 2 && ORDER.0[1] == 0 && ORDER.0[2] == 1, "sorted by name"); }
}}
h! { bq_stable_same_name, unwind = 16, {
    let (ok, order) = whole("m", "a", true);
    let _ = order;
    if ok { assert!(ORDER.0[0] == 2 && ORDER.0[1] + ORDER.0[2] == 1, "an export is not dropped because another has its name"); }
}}
h! { bq_unstable, unwind = 16, {
    let (ok, order) = whole("z", "a", false);
    if ok { assert!(ORDER.0[0] == order[0] && ORDER.0[1] == order[1] && ORDER.0[2] == order[2], "in the order of their submission"); }
}}

// ---- HashSetDefiner -------------------------------------------------------------------------------------
fn s_random_state() -> std::hash::RandomState { unsafe { core::mem::zeroed() } }
/// `HashSet::insert` by its contract: whether the value is new is up to the history of the set.
#[cfg(not(test))]
fn s_hashset_insert<T, S, A: std::alloc::Allocator>(set: &mut std::collections::HashSet<T, S, A>, value: T) -> bool {
    unsafe {
        assert!(set as *mut _ as usize == ME.0);
        let s: &String = &*(&value as *const T).cast();
        assert!(is(s, NAMES.0[0]), "the name itself is inserted");
        CALLS.0 += 1;
        std::mem::forget(value);
        LOG.0[1] == 1
    }
}
#[cfg(not(test))]
h! { #[kani::stub(std::hash::RandomState::new, s_random_state)] #[kani::stub(std::collections::HashSet::insert, s_hashset_insert)] pq_hashset, unwind = 16, {
    use safer_ffi::headers::HashSetDefiner;
    NAMES.0 = &["name"];
    let mut w: Vec<u8> = Vec::new();
    let wp = &mut w as *mut Vec<u8> as *mut () as usize;
    let mut d = std::mem::ManuallyDrop::new(HashSetDefiner { defines_set: Default::default(), out: &mut w });
    ME.0 = &mut d.defines_set as *mut _ as usize;
    let new: bool = kani::any();
    LOG.0[1] = new as u8;
    assert!(d.insert(NAMES.0[0]) == new && CALLS.0 == 1, "inserted once, and its answer is given back");
    assert!(d.out() as *mut dyn io::Write as *mut () as usize == wp, "the output is the one given");
}}
