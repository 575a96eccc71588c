// Text and integer helpers.
use super::{hex, num, text, Args};
use crate::util;
pub fn hexs(a: Args) {
	print!("{}", hex(&util::parse_hex_str(text(&a[0]))));
}
pub fn hexstrict(a: Args) {
	match util::parse_hex_str_strict(text(&a[0])) {
		Ok(b) => print!("{}", hex(&b)),
		Err(e) => print!("E{e:?}"),
	}
}
pub fn tostr(a: Args) {
	print!("{}", util::bytes_to_str(&a[0]));
}
pub fn ints(a: Args) {
	if a[0].len() <= 4 {
		print!("{}", util::byte_slice_to_u32(&a[0]));
	}
	print!(" {}", util::byte_slice_to_u64(&a[0]));
}
pub fn trim(a: Args) {
	let mut v = a[0].clone();
	util::trim_leading_0_bytes(&mut v);
	print!("{}", hex(&v));
}
pub fn digits(a: Args) {
	print!("{}", util::num_dec_digits(num(&a[0]) as u32));
}
pub fn u16s(a: Args) {
	match util::parse_str_to_u16(text(&a[0])) {
		Ok(n) => print!("{n}"),
		Err(e) => print!("E{e:?}"),
	}
}
pub fn int32(a: Args) {
	print!("{}", util::byte_slice_to_u32(&a[0]));
}
