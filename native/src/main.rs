//! `vnative` lists nothing and decides little: for each case of the property compiled in, it prints
//! `case <name> ok` or `case <name> FAILED <why>`.  A case runs in a process of its own.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};

/// What the heap holds now, as its users describe it: a block freed under another size shows up too.
pub struct Counting;
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static BYTES: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { BLOCKS.fetch_add(1, SeqCst); BYTES.fetch_add(l.size() as i64, SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { BLOCKS.fetch_sub(1, SeqCst); BYTES.fetch_sub(l.size() as i64, SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: Counting = Counting;
pub fn heap() -> (i64, i64) { (BLOCKS.load(SeqCst), BYTES.load(SeqCst)) }

#[cfg(feature = "s02")]
mod s02;
#[cfg(feature = "s02")]
use s02 as cases;
#[cfg(feature = "x01")]
mod x01;
#[cfg(feature = "x01")]
use x01 as cases;
#[cfg(feature = "h01")]
mod h01;
#[cfg(feature = "h01")]
use h01 as cases;
#[cfg(feature = "h02")]
mod h02;
#[cfg(feature = "h02")]
use h02 as cases;

fn main() {
    let mut args = std::env::args().skip(1);
    if let Some(name) = args.next() {
        let case = cases::CASES.iter().find(|c| c.0 == name).expect("no such case");
        (case.1)();
        println!("RETURNED");
        return;
    }
    let mut failed = false;
    for &(name, _, expect) in cases::CASES {
        let out = std::process::Command::new(std::env::current_exe().unwrap()).arg(name).output().unwrap();
        let (so, se) = (String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr));
        let why = match expect {
            None if !out.status.success() || !so.contains("RETURNED") => Some(format!("{} {}", out.status, se)),
            None => None,
            // it has to end the process, naming the function, and nothing may run in the caller afterwards
            Some(_) if so.contains("CAUGHT") => Some("the panic unwound into the caller".into()),
            Some(_) if out.status.success() || so.contains("RETURNED") => Some("the call returned".into()),
            Some(word) if !se.contains(word) => Some(format!("`{word}` is not named: {} {}", out.status, se)),
            Some(_) => None,
        };
        failed |= why.is_some();
        match why {
            None => println!("case {name} ok"),
            Some(w) => println!("case {name} FAILED {}", w.replace('\n', " | ").chars().take(700).collect::<String>()),
        }
    }
    std::process::exit(failed as i32);
}
