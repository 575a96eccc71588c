// Which outcome a decoder gives for some bytes, without looking at the value,
// and whether what the tag dispatch produced is what the decoder produces.
use super::{text, Args};
use crate::emv::ccd::IssuerApplicationData;
use crate::emv::*;
use crate::error::ParseError;
use crate::non_emv::ServiceCode;
use crate::DisplayBreakdown;
fn one<T: for<'x> TryFrom<&'x [u8], Error = ParseError> + DisplayBreakdown + PartialEq + 'static>(a: Args) {
	let direct = T::try_from(a[1].as_slice());
	match &direct {
		Ok(_) => print!("ok"),
		Err(e) => print!("E{e:?}"),
	}
	if a.len() > 2 {
		let raw = RawEmvTag {
			tag: a[2].clone(),
			class: TagClass::ContextSpecific,
			data_object_type: DataObjectType::Primitive,
			data: EmvData::Normal(a[1].clone()),
		};
		if let (Ok(ProcessedEmvTag::Parsed { parsed, .. }), Ok(v)) = (ProcessedEmvTag::try_from(raw), &direct) {
			if parsed.vdrv_type_name() == std::any::type_name::<T>() {
				// The type was just checked
				let p = unsafe { &*(parsed.as_ref() as *const dyn DisplayBreakdown as *const T) };
				print!("{}", if p == v { "|equal" } else { "|DIFFERENT" });
			} else {
				print!("|type {}", parsed.vdrv_type_name());
			}
		}
	}
}
pub fn dec(a: Args) {
	match text(&a[0]) {
		"TerminalVerificationResults" => one::<TerminalVerificationResults>(a),
		"TransactionStatusInformation" => one::<TransactionStatusInformation>(a),
		"AdditionalTerminalCapabilities" => one::<AdditionalTerminalCapabilities>(a),
		"TerminalCapabilities" => one::<TerminalCapabilities>(a),
		"CardholderVerificationMethodResults" => one::<CardholderVerificationMethodResults>(a),
		"CardholderVerificationMethodList" => one::<CardholderVerificationMethodList>(a),
		"IssuerApplicationData" => one::<IssuerApplicationData>(a),
		"IssuerActionCodeDefault" => one::<IssuerActionCodeDefault>(a),
		"IssuerActionCodeDenial" => one::<IssuerActionCodeDenial>(a),
		"IssuerActionCodeOnline" => one::<IssuerActionCodeOnline>(a),
		"TransactionType" => one::<TransactionType>(a),
		"TerminalType" => one::<TerminalType>(a),
		"PosEntryMode" => one::<PosEntryMode>(a),
		"AuthorisationResponseCode" => one::<AuthorisationResponseCode>(a),
		"ServiceCode" => one::<ServiceCode>(a),
		other => panic!("unknown type {other}"),
	}
}
