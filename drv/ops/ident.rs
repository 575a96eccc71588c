// Tag identification and tag processing.
use super::{hex, Args};
use crate::emv::{
	identify_tag, DataObjectType, EmvData, ProcessedEmvTag, RawEmvTag, TagBasicInfo, TagClass,
};
pub fn ident(a: Args) {
	print!("{}", identify_tag(&a[0]).unwrap_or("-"));
}
pub fn basic(a: Args) {
	match TagBasicInfo::try_from(a[0].as_slice()) {
		Ok(i) => print!("{}|{}|{:?}|{:?}", hex(&i.tag), i.name.unwrap_or("-"), i.class, i.data_object_type),
		Err(e) => print!("E{e:?}"),
	}
}
// tag, "n"+data or "*"
pub fn tagp(a: Args) {
	let raw = RawEmvTag {
		tag: a[0].clone(),
		class: TagClass::ContextSpecific,
		data_object_type: DataObjectType::Primitive,
		data: if a[1] == b"*" { EmvData::Masked } else { EmvData::Normal(a[1][1..].to_vec()) },
	};
	match ProcessedEmvTag::try_from(raw.clone()) {
		Ok(t) => {
			print!("{}", if *t.get_raw_tag() == raw { "same" } else { "DIFFERENT" });
			match &t {
				ProcessedEmvTag::Raw { .. } => print!("|R"),
				ProcessedEmvTag::Annotated { name, .. } => print!("|A|{name}"),
				ProcessedEmvTag::Parsed { name, parsed, .. } => {
					let t = parsed.vdrv_type_name();
					print!("|P|{name}|{}", t.rsplit("::").next().unwrap_or(t));
				}
			}
		}
		Err(e) => print!("E{e:?}"),
	}
}
