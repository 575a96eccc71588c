#[kani::proof]
#[kani::unwind(6)]
fn byte_slice_to_u32_contract() {
	let buf: [u8; 4] = kani::any();
	let s = any_upto(&buf);
	let mut v: u64 = 0;
	for &b in s {
		v = v * 256 + b as u64;
	}
	assert!(byte_slice_to_u32(s) as u64 == v, "the big-endian value of up to four bytes");
}
#[kani::proof]
#[kani::unwind(10)]
fn byte_slice_to_u64_contract() {
	let buf: [u8; 8] = kani::any();
	let s = any_upto(&buf);
	let mut v: u128 = 0;
	for &b in s {
		v = v * 256 + b as u128;
	}
	assert!(byte_slice_to_u64(s) as u128 == v, "the big-endian value of up to eight bytes");
}
#[kani::proof]
fn parse_tag_metadata_contract() {
	let b: u8 = kani::any();
	let (c, d) = ber_tlv::parse_tag_metadata(b);
	let want = match b & 0xC0 {
		0x00 => TagClass::Universal,
		0x40 => TagClass::Application,
		0x80 => TagClass::ContextSpecific,
		_ => TagClass::Private,
	};
	assert!(c == want, "the class is in the two highest bits");
	assert!((d == DataObjectType::Constructed) == (b & 0x20 != 0), "bit 6 marks constructed objects");
}
