//! Definitions requested in any order, repeatedly, of an output that fails anywhere.
use safer_ffi::headers::{builder, languages::{HeaderLanguage, CSharp, C}, Definer, HashSetDefiner, Language};
use safer_ffi::layout::{CLayoutOf, CType};
use safer_ffi::prelude::*;
use std::collections::HashSet;
use std::io;

#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct In { pub x: u8 }
#[derive_ReprC] #[repr(C)] pub struct Mid { pub a: In, pub b: [In; 2], pub c: bool }
#[derive_ReprC] #[repr(C)] pub struct Outer<'a> { pub m: Mid, pub i: In, pub r: &'a Mid, pub e: E, pub f: Option<unsafe extern "C" fn(Last, G<E>) -> *const Hidden> }
#[derive_ReprC] #[repr(C)] pub struct Last { pub z: i64 }
#[derive_ReprC] #[repr(C)] pub struct G<T: ReprC> { pub t: T, pub u: In }
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy)] pub enum E { A, B = 7 }
#[derive_ReprC] #[repr(opaque)] pub struct Hidden { pub v: Vec<u8> }

mod one { use super::*; #[ffi_export] pub const VN_TWICE: u8 = 1; }
mod two { use super::*; #[ffi_export] pub const VN_TWICE: u16 = 2; }
#[ffi_export] pub fn vn_f(a: In) { let _ = a; }

type Def = fn(&dyn HeaderLanguage, &mut dyn Definer) -> io::Result<()>;
macro_rules! defs {($($t:ty),* $(,)?) => { const DEFS: &[(&str, Def)] = &[$( (stringify!($t), |l, d| <CLayoutOf<$t> as CType>::define_self(l, d)) ),*]; }}
defs! { In, Mid, Outer<'static>, Last, G<u8>, G<Mid>, E, &'static Hidden, [In; 2], [Mid; 3], [[u8; 2]; 2], *const Outer<'static>, bool, u32,
        unsafe extern "C" fn(Mid) -> E, c_slice::Ref<'static, Mid>, repr_c::Vec<In>, Option<repr_c::Box<Last>>, char_p::Box, () }

/// Fails at the n-th call of `write`.
struct Sink { out: Vec<u8>, left: usize }
impl io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 { return Err(io::Error::new(io::ErrorKind::Other, "the sink is full")) }
        self.left -= 1;
        self.out.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn run(l: &dyn HeaderLanguage, seq: &[usize], left: usize) -> (Vec<io::Result<()>>, Sink, HashSet<String>) {
    let mut s = Sink { out: Vec::new(), left };
    let mut d = HashSetDefiner { defines_set: HashSet::new(), out: &mut s };
    let r = seq.iter().map(|&i| (DEFS[i].1)(l, &mut d)).collect();
    let set = d.defines_set;
    (r, s, set)
}
const LANGS: &[&dyn HeaderLanguage] = &[&C, &CSharp];
fn repeated() {
    for &l in LANGS { for i in 0..DEFS.len() {
        let (r1, s1, set1) = run(l, &[i], !0);
        let (r2, s2, set2) = run(l, &[i, i, i], !0);
        assert!(r1.iter().chain(&r2).all(|r| r.is_ok()), "{}", DEFS[i].0);
        assert!(s1.out == s2.out && set1 == set2, "defining {} again changes the output", DEFS[i].0);
        for j in 0..DEFS.len() {
            let a = run(l, &[i, j], !0).1.out;
            assert!(a == run(l, &[i, j, i, j, i], !0).1.out, "{} and {}, again", DEFS[i].0, DEFS[j].0);
            assert!(a.starts_with(&s1.out), "what is defined already is not changed");
        }
    } }
}
/// Every name that is defined is defined by one piece of text, whatever is asked for first.
fn pieces(out: &[u8]) -> Vec<String> {
    let t = String::from_utf8(out.to_vec()).unwrap();
    let mut v: Vec<String> = t.lines().filter(|l| l.starts_with("typedef struct {") == false && (l.starts_with("typedef struct ") || l.starts_with('}') || l.starts_with("enum "))).map(String::from).collect();
    v.sort();
    v
}
fn once_in_any_order() {
    let n = DEFS.len();
    let all: Vec<usize> = (0..n).collect();
    let want = run(&C, &all, !0);
    let p = pieces(&want.1.out);
    for w in p.windows(2) { assert!(w[0] != w[1] || w[0] == "}", "{} twice", w[0]); }
    for k in 0..n * 2 {
        let mut seq: Vec<usize> = (0..n).map(|i| (i + k) % n).collect();
        if k >= n { seq.reverse() }
        let got = run(&C, &seq, !0);
        assert!(got.2 == want.2 && pieces(&got.1.out) == p, "order {k}");
    }
}
/// A C compiler needs every component before the item that uses it.
fn components_first() {
    let n = DEFS.len();
    for k in 0..n {
        let seq: Vec<usize> = (0..n).map(|i| (i + k) % n).collect();
        let out = run(&C, &seq, !0).1.out;
        let dir = std::env::temp_dir().join(format!("vnative-{}-{k}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join("t.c"), [b"#include <stddef.h>\n#include <stdint.h>\n".as_slice(), &out].concat()).unwrap();
        let gcc = std::process::Command::new("gcc").args(["-std=gnu11", "-fsyntax-only", "-w"]).arg(dir.join("t.c")).output().unwrap();
        std::fs::remove_dir_all(&dir).unwrap();
        assert!(gcc.status.success(), "{} first: {}", DEFS[k].0, String::from_utf8_lossy(&gcc.stderr));
    }
}
fn failing_output() {
    for &l in LANGS { for i in 0..DEFS.len() {
        let writes = !0 - run(l, &[i], !0).1.left;
        for k in 0..writes {
            let (r, s, _) = run(l, &[i], k);
            assert!(r[0].is_err(), "{}: the output failed at write {k} of {writes}, and no error is reported", DEFS[i].0);
            assert!(s.left == 0);
        }
        assert!(run(l, &[i], writes).0[0].is_ok());
    } }
}
/// A definer that reports every name as new or as known, and logs.
struct Log { names: Vec<String>, known: bool, out: Vec<u8> }
impl Definer for Log {
    fn insert(&mut self, n: &str) -> bool { self.names.push(n.into()); !self.known }
    fn out(&mut self) -> &mut dyn io::Write { &mut self.out }
}
fn call<D: Definer>(d: &mut D, n: &str, f: &mut dyn FnMut(&mut dyn Definer) -> io::Result<()>) -> io::Result<()> { d.define_once(n, f) }
fn define_once() {
    for known in [false, true] { for fails in [false, true] {
        let mut d = Log { names: vec![], known, out: vec![] };
        let mut calls = 0;
        let r = call(&mut d, "the name", &mut |d: &mut dyn Definer| { calls += 1; write!(d.out(), "x")?; if fails { Err(io::ErrorKind::Other.into()) } else { Ok(()) } });
        assert!(d.names == ["the name"] && calls == !known as usize && d.out.len() == calls);
        assert!(r.is_ok() == (known || !fails));
    } }
    for (n, def) in DEFS {
        let mut d = Log { names: vec![], known: true, out: vec![] };
        def(&C, &mut d).unwrap();
        assert!(d.out.is_empty(), "{n}: nothing is written about names that are known");
    }
    let mut out = Vec::new();
    let mut d = HashSetDefiner { defines_set: HashSet::new(), out: &mut out };
    for i in 0..200 { for _ in 0..2 { let s = format!("n{}", i % 100); let new = !d.defines_set.contains(&s); assert!(d.insert(&s) == new && d.defines_set.contains(&s)); } }
    write!(d.out(), "y").unwrap();
    drop(d);
    assert!(out == b"y");
}
fn duplicates() {
    for stable in [true, false] {
        let mut out = Vec::new();
        let r = builder().with_guard("G").with_stable_header(stable).to_writer(&mut out).generate();
        assert!(matches!(&r, Err(e) if e.kind() == io::ErrorKind::AlreadyExists), "two items named VN_TWICE: {r:?}");
        assert!(String::from_utf8(out).unwrap().matches("#define VN_TWICE").count() <= 1);
    }
    let _ = (Language::C, one::VN_TWICE, two::VN_TWICE);
}
pub const CASES: &[(&str, fn(), Option<&str>)] = &[
    ("repeated", repeated, None), ("once_in_any_order", once_in_any_order, None), ("components_first", components_first, None),
    ("failing_output", failing_output, None), ("define_once", define_once, None), ("duplicates", duplicates, None),
];
