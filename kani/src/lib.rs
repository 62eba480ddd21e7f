#![cfg(kani)]
#![cfg_attr(feature = "h02", feature(pattern))]
#![cfg_attr(all(any(feature = "h01", feature = "h02"), not(test)), feature(allocator_api))]
#![allow(static_mut_refs)]
#![recursion_limit = "512"]
extern crate alloc;
#[macro_use]
mod common;
#[cfg(feature = "b01")] mod b01;
#[cfg(feature = "b02")] mod b02;
#[cfg(feature = "b03")] mod b03;
#[cfg(feature = "b03m")] mod b03m;
#[cfg(feature = "b04")] mod b04;
#[cfg(feature = "b05")] mod b05;
#[cfg(feature = "b06")] mod b06;
#[cfg(feature = "c01")] mod c01;
#[cfg(feature = "c02")] mod c02;
#[cfg(feature = "s01")] mod s01;
#[cfg(feature = "s02")] mod s02;
#[cfg(feature = "p01")] mod p01;
#[cfg(feature = "l01")] mod l01;
#[cfg(feature = "l02")] mod l02;
#[cfg(feature = "l03")] mod l03;
#[cfg(feature = "l04")] mod l04;
#[cfg(feature = "k01")] mod k01;
#[cfg(feature = "d01")] mod d01;
#[cfg(feature = "x01")] mod x01;
#[cfg(any(feature = "h01", feature = "h02"))] #[allow(dead_code)] mod ghostfmt;
#[cfg(feature = "h01")] mod h01;
#[cfg(feature = "h02")] mod h02;
#[cfg(feature = "f01")] mod f01;
#[cfg(feature = "t02")] mod t02;
