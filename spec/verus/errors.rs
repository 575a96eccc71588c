// C23: the text of every error, and of the two formats.
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ item src/error.rs enum ParseError /r#type/ => kind
//@@ item src/emv/tlv_parsing/mod.rs enum TlvFormat
//@@include show.rs
//@@include text.rs
//@@include errtext.rs
impl ParseError {
//@@ fn src/error.rs `impl Display for ParseError` fmt
//@ key ParseError.fmt
//@ params self f
//@ prints write=
//@ lower sig /Formatter<'_>/ => VxText
//@ lower sig /FmtResult/ => Result<(), VxFmtError>
//@ lower body /r#type/ => kind
//@ begin
	let ghost s0 = f@;
//@ spec
ensures final(f)@ == old(f)@ + self.shown(), r is Ok
//@ tail
	proof { assert(f@ =~= s0 + self.shown()); }
//@@ end
}
impl TlvFormat {
//@@ fn src/emv/tlv_parsing/mod.rs `impl Display for TlvFormat` fmt
//@ key TlvFormat.fmt
//@ params self f
//@ lower sig /Formatter<'_>/ => VxText
//@ lower sig /FormatResult/ => Result<(), VxFmtError>
//@ spec
ensures final(f)@ == old(f)@ + self.shown(), r is Ok
//@@ end
}
}
fn main() {}
