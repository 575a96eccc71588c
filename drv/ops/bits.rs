// Bit-flag values: binary representation and enabled bit ranges.
use super::{hex, text, Args};
use crate::emv::ccd::{CardVerificationResults, CommonCoreIdentifier};
use crate::emv::*;
use crate::error::ParseError;
fn one<T: for<'x> TryFrom<&'x [u8], Error = ParseError> + BitflagValue>(a: Args) {
	match T::try_from(a[1].as_slice()) {
		Ok(v) => {
			print!("{}", hex(&v.get_binary_representation()));
			for b in v.get_bit_display_information() {
				print!(";{},{},{:?},{}", b.offset, b.len, b.severity, b.explanation);
			}
		}
		Err(e) => print!("E{e:?}"),
	}
}
pub fn bits(a: Args) {
	match text(&a[0]) {
		"TerminalVerificationResults" => one::<TerminalVerificationResults>(a),
		"TransactionStatusInformation" => one::<TransactionStatusInformation>(a),
		"CommonCoreIdentifier" => one::<CommonCoreIdentifier>(a),
		"CardVerificationResults" => one::<CardVerificationResults>(a),
		"AdditionalTerminalCapabilities" => one::<AdditionalTerminalCapabilities>(a),
		"TerminalCapabilities" => one::<TerminalCapabilities>(a),
		"CardholderVerificationRule" => one::<CardholderVerificationRule>(a),
		"CardholderVerificationMethodResults" => one::<CardholderVerificationMethodResults>(a),
		other => panic!("unknown type {other}"),
	}
}
