// The decoders of individual values: decode, then display.
use super::{num, text, Args};
use crate::emv::ccd::{CardVerificationResults, CommonCoreIdentifier, IssuerApplicationData};
use crate::emv::*;
use crate::non_emv::ServiceCode;
use crate::error::ParseError;
use crate::DisplayBreakdown;
use termcolor::{ColorChoice, StandardStream};
fn one<T: for<'x> TryFrom<&'x [u8], Error = ParseError> + DisplayBreakdown>(a: Args) {
	let cc = if num(&a[4]) == 1 { ColorChoice::AlwaysAnsi } else { ColorChoice::Never };
	match T::try_from(a[1].as_slice()) {
		Ok(v) => v.display_breakdown(&mut StandardStream::stdout(cc), num(&a[2]) as u8, num(&a[3]) == 1),
		Err(e) => print!("E{e:?}"),
	}
}
// type, bytes, indentation, severity colours, colour
pub fn value(a: Args) {
	match text(&a[0]) {
		"TerminalVerificationResults" => one::<TerminalVerificationResults>(a),
		"TransactionStatusInformation" => one::<TransactionStatusInformation>(a),
		"CommonCoreIdentifier" => one::<CommonCoreIdentifier>(a),
		"CardVerificationResults" => one::<CardVerificationResults>(a),
		"AdditionalTerminalCapabilities" => one::<AdditionalTerminalCapabilities>(a),
		"TerminalCapabilities" => one::<TerminalCapabilities>(a),
		"CardholderVerificationRule" => one::<CardholderVerificationRule>(a),
		"CardholderVerificationMethodResults" => one::<CardholderVerificationMethodResults>(a),
		"CardholderVerificationMethodList" => one::<CardholderVerificationMethodList>(a),
		"IssuerApplicationData" => one::<IssuerApplicationData>(a),
		"IssuerActionCodeDefault" => one::<IssuerActionCodeDefault>(a),
		"IssuerActionCodeDenial" => one::<IssuerActionCodeDenial>(a),
		"IssuerActionCodeOnline" => one::<IssuerActionCodeOnline>(a),
		"TransactionType" => one::<TransactionType>(a),
		"TerminalType" => one::<TerminalType>(a),
		"PosEntryMode" => one::<PosEntryMode>(a),
		"AuthorisationResponseCode" => one::<AuthorisationResponseCode>(a),
		"ServiceCode" => one::<ServiceCode>(a),
		"TagBasicInfo" => one::<TagBasicInfo>(a),
		other => panic!("unknown type {other}"),
	}
}
// A default issuer action code
pub fn iacdef(a: Args) {
	let mut o = StandardStream::stdout(ColorChoice::Never);
	match text(&a[0]) {
		"IssuerActionCodeDefault" => IssuerActionCodeDefault::default().display_breakdown(&mut o, 0, false),
		"IssuerActionCodeDenial" => IssuerActionCodeDenial::default().display_breakdown(&mut o, 0, false),
		_ => IssuerActionCodeOnline::default().display_breakdown(&mut o, 0, false),
	}
}
pub fn svc(a: Args) {
	match ServiceCode::try_from(num(&a[0]) as u16) {
		Ok(v) => v.display_breakdown(&mut StandardStream::stdout(ColorChoice::Never), 0, true),
		Err(e) => print!("E{e:?}"),
	}
}
