#[kani::proof]
#[kani::unwind(8)]
fn iac_default_decode() {
	let s = any_slice();
	let w = TerminalVerificationResults::try_from(s);
	assert!(IssuerActionCodeDefault::try_from(s).map(|v| v.tvr) == w, "the bytes of a terminal verification result");
}
#[kani::proof]
#[kani::unwind(8)]
fn iac_denial_decode() {
	let s = any_slice();
	let w = TerminalVerificationResults::try_from(s);
	assert!(IssuerActionCodeDenial::try_from(s).map(|v| v.tvr) == w, "the bytes of a terminal verification result");
}
#[kani::proof]
#[kani::unwind(8)]
fn iac_online_decode() {
	let s = any_slice();
	let w = TerminalVerificationResults::try_from(s);
	assert!(IssuerActionCodeOnline::try_from(s).map(|v| v.tvr) == w, "the bytes of a terminal verification result");
}
#[kani::proof]
#[kani::unwind(8)]
fn iac_defaults() {
	let zero = TerminalVerificationResults::try_from(&[0u8; 5][..]);
	let ones = TerminalVerificationResults::try_from(&[0xFFu8; 5][..]);
	assert!(Ok(IssuerActionCodeDenial::default().tvr) == zero, "denial defaults to no bit set");
	assert!(Ok(IssuerActionCodeOnline::default().tvr) == ones, "online defaults to every bit set");
	assert!(Ok(IssuerActionCodeDefault::default().tvr) == ones, "default defaults to every bit set");
}
