#[kani::proof]
fn transaction_type_bytes() {
	let s = any_slice();
	let r = TransactionType::try_from(s);
	if s.len() == 1 {
		assert!(r == TransactionType::try_from(s[0]), "the code of the only byte");
	} else {
		assert!(r == Err(ParseError::ByteCountIncorrect { r#type: Ordering::Equal, expected: 1, found: s.len() }), "one byte only");
	}
}
#[kani::proof]
fn terminal_type_bytes() {
	let s = any_slice();
	let r = TerminalType::try_from(s);
	if s.len() == 1 {
		assert!(r == TerminalType::try_from(s[0]), "the code of the only byte");
	} else {
		assert!(r == Err(ParseError::ByteCountIncorrect { r#type: Ordering::Equal, expected: 1, found: s.len() }), "one byte only");
	}
}
#[kani::proof]
fn pos_entry_mode_bytes() {
	let s = any_slice();
	let r = PosEntryMode::try_from(s);
	if s.len() == 1 {
		assert!(r == PosEntryMode::try_from(s[0]), "the code of the only byte");
	} else {
		assert!(r == Err(ParseError::ByteCountIncorrect { r#type: Ordering::Equal, expected: 1, found: s.len() }), "one byte only");
	}
}
