#[kani::proof]
fn service_code_number() {
	use crate::non_emv::*;
	let n: u16 = kani::any();
	let r = ServiceCode::try_from(n);
	if n > 999 {
		assert!(r == Err(ParseError::InvalidNumber), "three digits only");
		return;
	}
	let v = match r { Ok(v) => v, Err(_) => { assert!(false, "three digits are accepted"); return; } };
	let (number, i, t, a, s, p) = v.vk_parts();
	assert!(number == n, "the number is kept");
	assert!(i == Interchange::from((n / 100) as u8), "the first digit gives the interchange rule");
	assert!(t == Technology::from((n / 100) as u8), "the first digit gives the technology");
	assert!(a == AuthorisationProcessing::from((n / 10 % 10) as u8), "the second digit gives the authorisation processing");
	assert!(s == AllowedServices::from((n % 10) as u8), "the third digit gives the allowed services");
	assert!(p == PinRequirements::from((n % 10) as u8), "the third digit gives the PIN requirements");
}
/// The contract of parse_str_to_u16 on up to four hexadecimal digits.
pub fn u16_of_hex_digits(s: &str) -> Result<u16, ParseError> {
	let b = s.as_bytes();
	assert!(b.len() == 4, "used on four digits");
	let mut n = 0u16;
	for i in 0..4 {
		assert!(b[i].is_ascii_digit() || (b[i] >= b'A' && b[i] <= b'F'), "used on hexadecimal digits");
		if !b[i].is_ascii_digit() {
			return Err(ParseError::InvalidNumber);
		}
		n = n * 10 + (b[i] - b'0') as u16;
	}
	Ok(n)
}
/// The contract of bytes_to_str on two bytes.
pub fn hex_of_two(b: &[u8]) -> String {
	assert!(b.len() == 2, "used on two bytes");
	let d = b"0123456789ABCDEF";
	unsafe { String::from_utf8_unchecked(Vec::from([d[(b[0] >> 4) as usize], d[(b[0] & 15) as usize], d[(b[1] >> 4) as usize], d[(b[1] & 15) as usize]])) }
}
#[kani::proof]
#[kani::stub(crate::util::parse_str_to_u16, u16_of_hex_digits)]
#[kani::stub(crate::util::bytes_to_str, hex_of_two)]
#[kani::unwind(6)]
fn service_code_byte_count() {
	use crate::non_emv::*;
	let s = any_slice();
	kani::assume(s.len() != 2);
	assert!(ServiceCode::try_from(s) == Err(ParseError::ByteCountIncorrect { r#type: Ordering::Equal, expected: 2, found: s.len() }), "two bytes only");
}
#[kani::proof]
#[kani::stub(crate::util::parse_str_to_u16, u16_of_hex_digits)]
#[kani::stub(crate::util::bytes_to_str, hex_of_two)]
#[kani::unwind(6)]
fn service_code_bytes() {
	use crate::non_emv::*;
	let s: [u8; 2] = kani::any();
	let r = ServiceCode::try_from(&s[..]);
	let (a, b, c, d) = (s[0] >> 4, s[0] & 15, s[1] >> 4, s[1] & 15);
	if a < 10 && b < 10 && c < 10 && d < 10 {
		assert!(r == ServiceCode::try_from(a as u16 * 1000 + b as u16 * 100 + c as u16 * 10 + d as u16), "the four decimal digits");
	} else {
		assert!(r == Err(ParseError::InvalidNumber), "decimal digits only");
	}
}
