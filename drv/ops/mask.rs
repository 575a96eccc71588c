// Masking.
use super::{chars, hex, text, Args};
use crate::emv::{is_masked_str, is_masked_u8, EmvData};
pub fn mask(a: Args) {
	let m = chars(&a[0]);
	print!("{}", is_masked_u8(&a[1], &m));
	if let Ok(s) = std::str::from_utf8(&a[1]) {
		print!(" {}", is_masked_str(s, &m));
	}
	match EmvData::from_u8_check_for_masked(a[1].clone(), &m) {
		EmvData::Normal(d) => print!(" {}", hex(&d)),
		EmvData::Masked => print!(" *"),
	}
	let _ = text;
}
