//! In-place mutation of an owned container that ends in a panic: the C-layout value equals the container's final state.
use super::heap;
use safer_ffi::prelude::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

pub const CASES: &[(&str, fn(), Option<&str>)] = &[
    ("vec_u32", || vec_of(|n| n, |v| *v), None),
    ("vec_u8", || vec_of(|n| n as u8, |v| *v as u32), None),
    ("vec_owning", owning, None),
    ("string", string, None),
];
const OPS: usize = 11;
fn op<T>(o: usize, v: &mut Vec<T>, mut make: impl FnMut(u32) -> T) {
    match o {
        0 => {}
        1 => v.push(make(90)),
        2 => (0..40).for_each(|n| v.push(make(n))),
        3 => v.clear(),
        4 => v.truncate(1),
        5 => { v.pop(); }
        6 => *v = vec![make(70), make(71)],
        7 => drop(std::mem::take(v)),
        8 => { v.reserve_exact(100); v.push(make(5)); }
        9 => v.shrink_to_fit(),
        10 => { *v = Vec::with_capacity(9); }
        _ => unreachable!(),
    }
}
fn vec_of<T: Clone + PartialEq + 'static>(make: fn(u32) -> T, show: fn(&T) -> u32) where T: safer_ffi::layout::ReprC {
    std::panic::set_hook(Box::new(|_| {}));
    for len in 0..5u32 { for spare in [0usize, 1, 6] { for o in 0..OPS { for panics in [false, true] {
        let before = heap();
        {
            let mut v: Vec<T> = Vec::with_capacity(len as usize + spare);
            v.extend((0..len).map(make));
            let mut want = v.clone();
            op(o, &mut want, make);
            let mut c: repr_c::Vec<T> = v.into();
            let r = catch_unwind(AssertUnwindSafe(|| c.with_rust_mut(|v| { op(o, v, make); if panics { panic!() } })));
            assert!(r.is_err() == panics, "the outcome of the closure");
            assert!(c[..] == want[..], "len {len} spare {spare} op {o} panics {panics}: {:?} is not {:?}", c.iter().map(show).collect::<Vec<_>>(), want.iter().map(show).collect::<Vec<_>>());
            c.with_rust_mut(|v| v.push(make(33)));
            want.push(make(33));
            assert!(c[..] == want[..]);
            let back: Vec<T> = c.into();
            assert!(back == want);
        }
        assert!(heap() == before, "len {len} spare {spare} op {o} panics {panics}: {:?} -> {:?} on the heap", before, heap());
    } } } }
}
static LIVE: AtomicI64 = AtomicI64::new(0);
#[derive_ReprC]
#[repr(C)]
pub struct Owning { n: u32, own: repr_c::Box<u32> }
impl Drop for Owning { fn drop(&mut self) { assert!(*self.own == self.n); LIVE.fetch_sub(1, SeqCst); } }
fn owned(n: u32) -> Owning { LIVE.fetch_add(1, SeqCst); Owning { n, own: Box::new(n).into() } }
fn owning() {
    std::panic::set_hook(Box::new(|_| {}));
    for len in 0..4u32 { for spare in [0usize, 3] { for o in 0..OPS { for panics in [false, true] {
        let before = heap();
        {
            let mut v = Vec::with_capacity(len as usize + spare);
            v.extend((0..len).map(owned));
            let mut want: Vec<u32> = (0..len).collect();
            op(o, &mut want, |n| n);
            let mut c: repr_c::Vec<Owning> = v.into();
            let r = catch_unwind(AssertUnwindSafe(|| c.with_rust_mut(|v| { op(o, v, owned); if panics { panic!() } })));
            assert!(r.is_err() == panics);
            assert!(c.iter().map(|x| x.n).eq(want.iter().copied()), "len {len} spare {spare} op {o} panics {panics}");
            assert!(LIVE.load(SeqCst) == want.len() as i64, "each element that left was destroyed once");
        }
        assert!(LIVE.load(SeqCst) == 0, "each element is destroyed once");
        assert!(heap() == before, "len {len} spare {spare} op {o} panics {panics}: {:?} -> {:?} on the heap", before, heap());
    } } } }
}
fn string() {
    std::panic::set_hook(Box::new(|_| {}));
    for text in ["", "a", "é€😀", "some text"] { for spare in [0usize, 5] { for o in 0..6 { for panics in [false, true] {
        let before = heap();
        {
            let mut s = String::with_capacity(text.len() + spare);
            s.push_str(text);
            let edit = move |s: &mut String| match o {
                0 => {}
                1 => s.push('ß'),
                2 => (0..40).for_each(|_| s.push_str("xyz")),
                3 => s.clear(),
                4 => { s.pop(); }
                _ => *s = String::from("other"),
            };
            let mut want = String::from(text);
            edit(&mut want);
            let mut c: repr_c::String = s.into();
            let r = catch_unwind(AssertUnwindSafe(|| c.with_rust_mut(|s| { edit(s); if panics { panic!() } })));
            assert!(r.is_err() == panics);
            assert!(&*c == &*want, "{text} spare {spare} op {o} panics {panics}");
            c.with_rust_mut(|s| s.push('!'));
            want.push('!');
            assert!(&*c == &*want);
            let back: String = c.into();
            assert!(back == want);
        }
        assert!(heap() == before, "{text} spare {spare} op {o} panics {panics}: {:?} -> {:?} on the heap", before, heap());
    } } } }
}
