#[kani::proof]
#[kani::unwind(18)]
fn issuer_application_data_decode() {
	use crate::emv::ccd::*;
	let s = any_slice();
	let r = IssuerApplicationData::try_from(s);
	let ccd = s.len() == 32 && s[0] == 15 && s[16] == 15;
	if !ccd {
		assert!(matches!(r, Err(ParseError::NonCcdCompliant)), "anything but the CCD layout is an error");
		return;
	}
	let cci = CommonCoreIdentifier::try_from(&s[1..2]);
	let cvr = CardVerificationResults::try_from(&s[3..8]);
	match (cci, cvr) {
		(Ok(c), Ok(v)) => {
			let r = match r { Ok(r) => r, Err(_) => { assert!(false, "a valid value is accepted"); return; } };
			assert!(r.cci == c, "byte 2 is the common core identifier");
			let FormatSpecificData::A { dki, cvr, counter_bytes, issuer_discretionary_data } = r.format_specific_data;
			assert!(dki == s[2], "byte 3 is the derivation key index");
			assert!(cvr == v, "bytes 4 to 8 are the card verification results");
			let i: usize = kani::any();
			kani::assume(i < 8);
			assert!(counter_bytes[i] == s[8 + i], "bytes 9 to 16 are the counters");
			let j: usize = kani::any();
			kani::assume(j < 15);
			assert!(issuer_discretionary_data[j] == s[17 + j], "bytes 18 to 32 are issuer-discretionary");
		}
		(Err(e), _) => assert!(r == Err(e), "the error of the common core identifier"),
		(_, Err(e)) => assert!(r == Err(e), "the error of the card verification results"),
	}
}
