// The code tables on their own.
use super::{num, text, Args};
use crate::emv::ccd::*;
use crate::emv::*;
use crate::error::ParseError;
use crate::non_emv::*;
fn f<T: TryFrom<u8, Error = ParseError> + std::fmt::Display>(v: u8) {
	match T::try_from(v) {
		Ok(x) => print!("{x}"),
		Err(e) => print!("E{e:?}"),
	}
}
pub fn enumv(a: Args) {
	if text(&a[0]) == "AuthorisationResponseCode" {
		match AuthorisationResponseCode::try_from(text(&a[1])) {
			Ok(x) => print!("{x}"),
			Err(e) => print!("E{e:?}"),
		}
		return;
	}
	let v = num(&a[1]) as u8;
	match text(&a[0]) {
		"FormatCode" => f::<FormatCode>(v),
		"CryptogramVersion" => f::<CryptogramVersion>(v),
		"GenAc1ApplicationCryptogramType" => f::<GenAc1ApplicationCryptogramType>(v),
		"GenAc2ApplicationCryptogramType" => f::<GenAc2ApplicationCryptogramType>(v),
		"CvMethod" => f::<CvMethod>(v),
		"CvmCondition" => f::<CvmCondition>(v),
		"CvmResult" => f::<CvmResult>(v),
		"TransactionType" => f::<TransactionType>(v),
		"TerminalType" => f::<TerminalType>(v),
		"PosEntryMode" => f::<PosEntryMode>(v),
		"TagClass" => f::<TagClass>(v),
		"Interchange" => print!("{}", Interchange::from(v)),
		"Technology" => print!("{}", Technology::from(v)),
		"AuthorisationProcessing" => print!("{}", AuthorisationProcessing::from(v)),
		"AllowedServices" => print!("{}", AllowedServices::from(v)),
		"PinRequirements" => print!("{}", PinRequirements::from(v)),
		other => panic!("unknown type {other}"),
	}
}
