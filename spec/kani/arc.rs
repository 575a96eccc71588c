/// The contract of core::str::from_utf8 on two bytes.
pub fn utf8_of_two(v: &[u8]) -> Result<&str, std::str::Utf8Error> {
	assert!(v.len() == 2, "used on two bytes");
	if (v[0] < 0x80 && v[1] < 0x80) || (v[0] >= 0xC2 && v[0] <= 0xDF && v[1] & 0xC0 == 0x80) {
		Ok(unsafe { std::str::from_utf8_unchecked(v) })
	} else {
		Err(unsafe { std::mem::zeroed() })
	}
}
#[kani::proof]
#[kani::stub(core::str::from_utf8, utf8_of_two)]
#[kani::unwind(4)]
fn authorisation_response_code_bytes() {
	let s = any_slice();
	let r = AuthorisationResponseCode::try_from(s);
	if s.len() != 2 {
		assert!(r == Err(ParseError::ByteCountIncorrect { r#type: Ordering::Equal, expected: 2, found: s.len() }), "two bytes only");
		return;
	}
	let w = match utf8_of_two(s) {
		Ok(t) => AuthorisationResponseCode::try_from(t),
		Err(_) => Err(ParseError::InvalidNumber),
	};
	assert!(r == w, "the code of the two characters");
}
