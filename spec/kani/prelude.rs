// Shared by every harness module.
#![allow(unused)]
use crate::emv::*;
use crate::error::ParseError;
use crate::util::*;
use crate::DisplayBreakdown;
use std::cmp::Ordering;

/// A byte slice of any content and any length below 2^40, the largest object the
/// verifier's pointers can address: a fresh allocation of symbolic size, which
/// no loop is unrolled for.
pub fn any_slice() -> &'static [u8] {
	let len: usize = kani::any();
	if len == 0 {
		return &[];
	}
	kani::assume(len < 1 << 40);
	unsafe {
		let p = std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(len, 1));
		kani::assume(!p.is_null());
		std::slice::from_raw_parts(p, len)
	}
}
/// A byte slice of any content and a length up to N.
pub fn any_upto<const N: usize>(buf: &[u8; N]) -> &[u8] {
	let len: usize = kani::any();
	kani::assume(len <= N);
	&buf[..len]
}
/// Labels are rendered text; harnesses that decide bits do not build it.
pub fn no_format(_: std::fmt::Arguments<'_>) -> String {
	String::new()
}
