//@@ item src/emv/ccd/iad.rs struct IssuerApplicationData
//@@ item src/emv/ccd/iad.rs enum FormatSpecificData
pub open spec fn shaped(b: Seq<u8>) -> bool { b.len() == 32 && b[0] == 15 && b[16] == 15 }
pub open spec fn cci_bytes(b: Seq<u8>) -> Seq<u8> { b.subrange(1, 2) }
pub open spec fn cvr_bytes(b: Seq<u8>) -> Seq<u8> { b.subrange(3, 8) }
pub open spec fn iad_bad(b: Seq<u8>) -> bool { !shaped(b) || CommonCoreIdentifier_bad(cci_bytes(b)) || CardVerificationResults_bad(cvr_bytes(b)) }
pub open spec fn iad_err(b: Seq<u8>) -> ParseError {
  if !shaped(b) { ParseError::NonCcdCompliant } else if CommonCoreIdentifier_bad(cci_bytes(b)) { CommonCoreIdentifier_err(cci_bytes(b)) } else { CardVerificationResults_err(cvr_bytes(b)) }
}
pub open spec fn format_is(b: Seq<u8>, f: FormatSpecificData) -> bool {
  match f { FormatSpecificData::A { dki, cvr, counter_bytes, issuer_discretionary_data } => dki == b[2] && CardVerificationResults_is(cvr_bytes(b), cvr) && counter_bytes@ == b.subrange(8, 16) && issuer_discretionary_data@ == b.subrange(17, 32) }
}
/// the value that the bytes stand for
pub open spec fn iad_is(b: Seq<u8>, v: IssuerApplicationData) -> bool { !iad_bad(b) && CommonCoreIdentifier_is(cci_bytes(b), v.cci) && format_is(b, v.format_specific_data) }
/// 32 bytes with both length bytes 15 and the published format are the value or a wrong field, never a wrong length
pub proof fn only_fields(b: Seq<u8>) requires shaped(b), iad_bad(b) ensures iad_err(b) == ParseError::NonCcdCompliant || iad_err(b) == ParseError::NonCompliant {}
// core: [u8]::copy_from_slice
#[verifier::external_body] pub fn vx_copy<const N: usize>(a: &mut [u8; N], b: &[u8]) requires b@.len() == N ensures final(a)@ == b@ { a.copy_from_slice(b); }
#[verifier::external_body] pub fn vx_all<const N: usize>(a: &[u8; N]) -> (r: &[u8]) ensures r@ == a@ { &a[..] }
impl FormatSpecificData {
//@@ fn src/emv/ccd/iad.rs `impl FormatSpecificData` parse_format_data
//@ key FormatSpecificData.parse_format_data
//@ params format_code bytes
//@ lower? body /&bytes\[(\d+)\.\.=(\d+)\]/ => vx_range(bytes, \1, \2 + 1)
//@ lower? body /&bytes\[(\d+)\.\.(\d+)\]/ => vx_range(bytes, \1, \2)
//@ lower? body /\b(\w+)\.copy_from_slice\(/ => vx_copy(&mut \1, 
//@ spec
requires bytes@.len() == 32
ensures (r is Err) == CardVerificationResults_bad(cvr_bytes(bytes@)), r is Err ==> r->Err_0 == CardVerificationResults_err(cvr_bytes(bytes@)), r is Ok ==> format_is(bytes@, r->Ok_0)
//@@ end
}
impl IssuerApplicationData {
//@@ fn src/emv/ccd/iad.rs `impl TryFrom<&[u8]> for IssuerApplicationData` try_from
//@ key IssuerApplicationData.try_from
//@ params bytes
//@ lower? sig /Self::Error/ => ParseError
//@ lower? body /\bconst (\w+): usize = (\d+);/ => let \1: usize = \2;
//@ lower? body /&bytes\[(\d+)\.\.=(\d+)\]/ => vx_range(bytes, \1, \2 + 1)
//@ lower? body /&bytes\[(\d+)\.\.(\d+)\]/ => vx_range(bytes, \1, \2)
//@ spec
ensures (r is Err) == iad_bad(bytes@), r is Err ==> r->Err_0 == iad_err(bytes@), r is Ok ==> iad_is(bytes@, r->Ok_0)
//@@ end
//@@ fn src/emv/ccd/iad.rs `impl DisplayBreakdown for IssuerApplicationData` display_breakdown
//@ key IssuerApplicationData.display_breakdown
//@ params self stdout indentation show_severity_colours
//@ prints print=stdout
//@ lower? body /&(\w+)\[\.\.\]/ => vx_all(\1)
//@ spec
requires indentation < 255
ensures final(stdout)@ == iad_report(old(stdout)@, *self, indentation as int, show_severity_colours)
//@@ end
}
pub open spec fn iad_report(s: Seq<Ev>, v: IssuerApplicationData, ind: int, colours: bool) -> Seq<Ev> {
  match v.format_specific_data { FormatSpecificData::A { dki, cvr, counter_bytes, issuer_discretionary_data } => {
    let s = CommonCoreIdentifier_diagram(headln(s + tabs(ind), "Common Core Identifier:"@), v.cci, ind + 1, colours);
    let s = head(s + tabs(ind), "Derivation Key Index:"@) + tx(" "@) + tx("0x"@) + tx(hex2(dki)) + tx("\n"@);
    let s = CardVerificationResults_diagram(headln(s + tabs(ind), "Card Verification Results:"@), cvr, ind + 1, colours);
    let s = dump(headln(s + tabs(ind), "Counters: (Payment System-Specific)"@), counter_bytes@, 16, ind + 1, false);
    dump(headln(s + tabs(ind), "Issuer-Discretionary Data"@), issuer_discretionary_data@, 16, ind + 1, false)
  } }
}
