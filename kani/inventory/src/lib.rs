//! inventory 0.3.5 with one change: `submit!` names the submitted item (`<Exports as Submitted<{ hash("name") }>>::ITEM`)
//! where the original puts it into the registry before `main` (a verifier runs nothing before `main`).  A contract then
//! submits the items itself, through the original `ErasedNode::submit`, in whatever order it wants to reason about.

#![doc(html_root_url = "https://docs.rs/inventory/0.3.5")]
#![no_std]
#![allow(
    clippy::doc_markdown,
    clippy::empty_enum,
    clippy::expl_impl_clone_on_copy,
    clippy::let_underscore_untyped,
    clippy::let_unit_value,
    clippy::must_use_candidate,
    clippy::semicolon_if_nothing_returned, // https://github.com/rust-lang/rust-clippy/issues/7324
)]

#[doc(hidden)]
pub extern crate core;

#[doc(hidden)]
pub use ctor::ctor;

use core::cell::UnsafeCell;
use core::marker::PhantomData;
use core::ops::Deref;
use core::ptr;
use core::sync::atomic::{AtomicPtr, Ordering};
use ghost::phantom;

#[doc(hidden)]
pub struct Registry {
    head: AtomicPtr<Node>,
}

#[doc(hidden)]
pub struct Node {
    pub value: &'static dyn ErasedNode,
    pub next: UnsafeCell<Option<&'static Node>>,
}

unsafe impl Sync for Node {}

#[doc(hidden)]
pub trait ErasedNode: Sync {
    unsafe fn submit(&self, node: &'static Node);
}

impl<T: Collect> ErasedNode for T {
    unsafe fn submit(&self, node: &'static Node) {
        T::registry().submit(node);
    }
}

pub trait Collect: Sync + Sized + 'static {
    #[doc(hidden)]
    fn registry() -> &'static Registry;
}

impl Registry {
    pub const fn new() -> Self {
        Registry {
            head: AtomicPtr::new(ptr::null_mut()),
        }
    }

    unsafe fn submit(&'static self, new: &'static Node) {
        let mut head = self.head.load(Ordering::Relaxed);
        loop {
            *new.next.get() = head.as_ref();
            let new_ptr = new as *const Node as *mut Node;
            match self
                .head
                .compare_exchange(head, new_ptr, Ordering::Release, Ordering::Relaxed)
            {
                Ok(_) => return,
                Err(prev) => head = prev,
            }
        }
    }
}

#[allow(non_camel_case_types)]
#[phantom]
pub struct iter<T>;

const ITER: () = {
    fn into_iter<T: Collect>() -> Iter<T> {
        let head = T::registry().head.load(Ordering::Acquire);
        Iter {
            node: unsafe { head.as_ref() },
            marker: PhantomData,
        }
    }

    impl<T: Collect> IntoIterator for iter<T> {
        type Item = &'static T;
        type IntoIter = Iter<T>;

        fn into_iter(self) -> Self::IntoIter {
            into_iter()
        }
    }

    #[doc(hidden)]
    impl<T: Collect> Deref for iter<T> {
        type Target = fn() -> Iter<T>;
        fn deref(&self) -> &Self::Target {
            &(into_iter as fn() -> Iter<T>)
        }
    }

    #[derive(Clone)]
    pub struct Iter<T: 'static> {
        node: Option<&'static Node>,
        marker: PhantomData<T>,
    }

    impl<T: 'static> Iterator for Iter<T> {
        type Item = &'static T;

        fn next(&mut self) -> Option<Self::Item> {
            let node = self.node?;
            unsafe {
                let value_ptr = (node.value as *const dyn ErasedNode).cast::<T>();
                self.node = *node.next.get();
                Some(&*value_ptr)
            }
        }
    }
};

#[macro_export]
macro_rules! collect {
    ($ty:ty) => {
        impl $crate::Collect for $ty {
            #[inline]
            fn registry() -> &'static $crate::Registry {
                static REGISTRY: $crate::Registry = $crate::Registry::new();
                &REGISTRY
            }
        }
    };
}

pub trait Submitted<const NAME: u64> {
    type T: 'static;
    const ITEM: &'static Self::T;
    const NODE: Node;
}
pub const fn hash(s: &str) -> u64 {
    let (b, mut i, mut h) = (s.as_bytes(), 0, 0xcbf2_9ce4_8422_2325_u64);
    while i < b.len() {
        h = (h ^ b[i] as u64).wrapping_mul(0x100_0000_01b3);
        i += 1;
    }
    h
}
#[macro_export]
macro_rules! submit {
    ($(:: $p:ident)* { name: $name:expr, gen_def: $gen_def:expr $(,)? }) => {
        impl $crate::Submitted<{ $crate::hash($name) }> for Exports {
            type T = $(:: $p)*;
            const ITEM: &'static Self::T = &$(:: $p)* { name: $name, gen_def: $gen_def };
            const NODE: $crate::Node = $crate::Node {
                value: <Self as $crate::Submitted<{ $crate::hash($name) }>>::ITEM,
                next: $crate::core::cell::UnsafeCell::new($crate::core::option::Option::None),
            };
        }
    };
}

#[allow(dead_code)]
fn unused() {
    let _ = ITER;
}
