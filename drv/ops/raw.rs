// Raw decoding: BER-TLV, Ingenico TLV, automatic detection.
use super::{chars, hex, text, Args};
use crate::emv::{DataObjectType, EmvData, RawEmvBlock, TagClass, TlvFormat};
use crate::error::ParseError;
fn block(b: &RawEmvBlock, out: &mut String) {
	out.push('[');
	for n in &b.nodes {
		out.push_str(&hex(&n.tag.tag));
		out.push(match n.tag.class {
			TagClass::Universal => 'U',
			TagClass::Application => 'A',
			TagClass::ContextSpecific => 'S',
			TagClass::Private => 'P',
		});
		out.push(match n.tag.data_object_type {
			DataObjectType::Primitive => 'p',
			DataObjectType::Constructed => 'c',
		});
		match &n.tag.data {
			EmvData::Normal(d) => out.push_str(&hex(d)),
			EmvData::Masked => out.push('*'),
		}
		block(&n.child_block, out);
	}
	out.push(']');
}
fn show(r: Result<RawEmvBlock, ParseError>) {
	match r {
		Ok(b) => {
			let mut s = String::new();
			block(&b, &mut s);
			print!("{s}");
		}
		Err(e) => print!("E{e:?}"),
	}
}
pub fn ber(a: Args) {
	show(crate::emv::ber_tlv::parse(&a[1], &chars(&a[0])));
}
pub fn ing(a: Args) {
	show(crate::emv::ingenico_tlv::parse(text(&a[1]), &chars(&a[0])));
}
pub fn auto(a: Args) {
	match crate::emv::auto_tlv::parse(text(&a[1]), &chars(&a[0])) {
		Ok((f, b)) => {
			print!(
				"{}:",
				match f {
					TlvFormat::BerTlv => "BER",
					TlvFormat::Ingenico => "ING",
				}
			);
			show(Ok(b));
		}
		Err(e) => print!("E{e:?}"),
	}
}
pub fn meta(a: Args) {
	let (c, d) = crate::emv::ber_tlv::parse_tag_metadata(a[0][0]);
	print!("{c:?} {d:?}");
}
