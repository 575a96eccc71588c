// Processing a decoded block, sorting it, and displaying it.
use super::{chars, hex, num, text, Args};
use crate::emv::{EmvData, ProcessedEmvBlock, ProcessedEmvTag};
use crate::DisplayBreakdown;
use termcolor::{ColorChoice, StandardStream};
fn block(b: &ProcessedEmvBlock, out: &mut String) {
	out.push('[');
	for n in &b.nodes {
		let (k, name, t) = match &n.tag {
			ProcessedEmvTag::Raw { .. } => ("R", "", String::new()),
			ProcessedEmvTag::Annotated { name, .. } => ("A", *name, String::new()),
			ProcessedEmvTag::Parsed { name, parsed, .. } => {
				let t = parsed.vdrv_type_name();
				("P", *name, t.rsplit("::").next().unwrap_or(t).to_owned())
			}
		};
		let r = n.tag.get_raw_tag();
		out.push_str(&format!("({k}|{name}|{t}|{}|{:?}|{:?}|", hex(&r.tag), r.class, r.data_object_type));
		match &r.data {
			EmvData::Normal(d) => out.push_str(&hex(d)),
			EmvData::Masked => out.push('*'),
		}
		out.push('|');
		block(&n.child_block, out);
		out.push(')');
	}
	out.push(']');
}
fn parse(fmt: &str, masks: &[char], data: &[u8]) -> Result<ProcessedEmvBlock, crate::error::ParseError> {
	match fmt {
		"ing" => crate::emv::ingenico_tlv::parse(text(data), masks),
		_ => crate::emv::ber_tlv::parse(data, masks),
	}
	.and_then(ProcessedEmvBlock::try_from)
}
// fmt, masks, data, sort
pub fn proc(a: Args) {
	match parse(text(&a[0]), &chars(&a[1]), &a[2]) {
		Ok(mut b) => {
			if num(&a[3]) == 1 {
				b.sort_nodes();
			}
			let mut s = String::new();
			block(&b, &mut s);
			print!("{s}");
		}
		Err(e) => print!("E{e:?}"),
	}
}
// fmt, masks, data, sort, indentation, severity colours, colour
pub fn show(a: Args) {
	match parse(text(&a[0]), &chars(&a[1]), &a[2]) {
		Ok(mut b) => {
			if num(&a[3]) == 1 {
				b.sort_nodes();
			}
			let cc = if num(&a[6]) == 1 { ColorChoice::AlwaysAnsi } else { ColorChoice::Never };
			b.display_breakdown(&mut StandardStream::stdout(cc), num(&a[4]) as u8, num(&a[5]) == 1);
		}
		Err(e) => print!("E{e:?}"),
	}
}
