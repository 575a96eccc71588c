// C16: service codes, from numbers, from bytes and on screen.
//@@include hexspec.rs
//@@use out
//@@use texts
//@@use digit_enums
//@@include numspec.rs
#[verifier::external_body] pub struct VxParseIntError { p: u8 }
// std: str::trim and str::parse::<u16>
#[verifier::external_body] pub fn vx_trim(s: &str) -> (r: &str) ensures r@ == unpadded(s@) { s.trim() }
#[verifier::external_body] pub fn vx_parse_u16(s: &str) -> (r: Result<u16, VxParseIntError>) ensures (r is Ok) == (signed(s@) is Some && signed(s@)->0 <= 65535), r is Ok ==> r->Ok_0 == signed(s@)->0 { unimplemented!() }
//@@ fn src/util.rs parse_str_to_u16
//@ params s
//@ results map_err
//@ lower? body /::<u16>/ => 
//@ calls trim=vx_trim parse=vx_parse_u16
//@ spec
ensures r == number(s@)
//@@ end
//@@ contract hex bytes_to_str
// ---------------------------------------------------------------- the value
//@@ item src/non_emv/service_code.rs struct ServiceCode /\b(\w+) :(?!:)/ => pub \1 :
pub open spec fn code_of(n: int) -> ServiceCode {
  let a = (n / 100) as u8; let b = (n / 10 % 10) as u8; let c = (n % 10) as u8;
  ServiceCode { number: n as u16, interchange: Interchange_of(a)->0, technology: Technology_of(a)->0, authorisation_processing: AuthorisationProcessing_of(b)->0, allowed_services: AllowedServices_of(c)->0, pin_requirements: PinRequirements_of(c)->0 }
}
pub open spec fn service_code(n: u16) -> Result<ServiceCode, ParseError> { if n > 999 { Err(ParseError::InvalidNumber) } else { Ok(code_of(n as int)) } }
/// the code of the decimal digits in two bytes
pub open spec fn service_code_of_bytes(b: Seq<u8>) -> Result<ServiceCode, ParseError> {
  if b.len() != 2 { Err(ParseError::ByteCountIncorrect { kind: Ordering::Equal, expected: 2, found: b.len() as usize }) }
  else if b[0] > 9 || b[1] / 16 > 9 || b[1] % 16 > 9 { Err(ParseError::InvalidNumber) }
  else { Ok(code_of(b[0] * 100 + b[1] / 16 * 10 + b[1] % 16)) }
}
pub proof fn four_digits(b: Seq<u8>) requires b.len() == 2
  ensures number(hex_text(b)) == ({ let ok = b[0] / 16 < 10 && b[0] % 16 < 10 && b[1] / 16 < 10 && b[1] % 16 < 10;
    if ok { Ok::<u16, ParseError>((b[0] / 16 * 1000 + b[0] % 16 * 100 + b[1] / 16 * 10 + b[1] % 16) as u16) } else { Err::<u16, ParseError>(ParseError::InvalidNumber) } })
{
  let t = hex_text(b);
  assert(t.len() == 4);
  upper_digit_hex((b[0] / 16) as u8); upper_digit_hex((b[0] % 16) as u8); upper_digit_hex((b[1] / 16) as u8); upper_digit_hex((b[1] % 16) as u8);
  assert(t[0] == upper_digit((b[0] / 16) as u8) && t[1] == upper_digit((b[0] % 16) as u8) && t[2] == upper_digit((b[1] / 16) as u8) && t[3] == upper_digit((b[1] % 16) as u8));
  printable_not_blank(t[0]); printable_not_blank(t[3]);
  assert(unpadded(t) == t);
  let t3 = t.drop_last(); let t2 = t3.drop_last(); let t1 = t2.drop_last();
  assert(t3.last() == t[2] && t2.last() == t[1] && t1.last() == t[0] && t1.len() == 1 && t1[0] == t[0]);
  assert(decimal(t1) == (if digit(t[0]) { Some((t[0] as nat - 48) as nat) } else { None }));
  assert(decimal(t2) == (if digit(t[1]) { match decimal(t1) { Some(n) => Some(10 * n + (t[1] as nat - 48) as nat), None => None } } else { None }));
  assert(decimal(t3) == (if digit(t[2]) { match decimal(t2) { Some(n) => Some(10 * n + (t[2] as nat - 48) as nat), None => None } } else { None }));
  assert(decimal(t) == (if digit(t[3]) { match decimal(t3) { Some(n) => Some(10 * n + (t[3] as nat - 48) as nat), None => None } } else { None }));
}
impl ServiceCode {
//@@ fn src/non_emv/service_code.rs `impl TryFrom<u16> for ServiceCode` try_from
//@ key ServiceCode.try_from
//@ params number
//@ lower sig /Self::Error/ => ParseError
//@ spec
ensures r == service_code(number)
//@ begin
	hide(Interchange_of); hide(Technology_of); hide(AuthorisationProcessing_of); hide(AllowedServices_of); hide(PinRequirements_of);
//@@ end
//@@ fn src/non_emv/service_code.rs `impl TryFrom<&[u8]> for ServiceCode` try_from as from_bytes
//@ key ServiceCode.from_bytes
//@ params raw_bytes
//@ results map_err and_then map
//@ lower? sig /Self::Error/ => ParseError
//@ lower? body /r#type/ => kind
//@ lower? body /\bconst (\w+): usize = (\d+);/ => let \1: usize = \2;
//@ begin
	proof { if raw_bytes@.len() == 2 { four_digits(raw_bytes@); let b0 = raw_bytes@[0]; let b1 = raw_bytes@[1]; assert(b0 / 16 * 16 + b0 % 16 == b0); } }
//@ spec
ensures r == service_code_of_bytes(raw_bytes@)
//@@ end
//@@ fn src/non_emv/service_code.rs `impl DisplayBreakdown for ServiceCode` display_breakdown
//@ key ServiceCode.display_breakdown
//@ prints print=stdout
//@ spec
ensures final(stdout)@ == service_report(old(stdout)@, *self, indentation as int)
//@@ end
}
/// one line of the explanation: the branch drawn from the digit, the name of the entry in bold and its text
pub open spec fn entry(s: Seq<Ev>, ind: int, branch: Seq<char>, name: Seq<char>, gap: Seq<char>, v: Seq<char>) -> Seq<Ev> { strong(s + tabs(ind) + tx(branch), name) + tx(gap) + tx(v) + tx("\n"@) }
pub open spec fn service_report(s: Seq<Ev>, c: ServiceCode, ind: int) -> Seq<Ev> {
  let s = s + tabs(ind) + seq![Ev::Set(bold())] + tx(pad(dec(c.number as nat), 3)) + tx("\n"@) + seq![Ev::Reset];
  let s = entry(s, ind, "\u{2502}\u{2502}\u{251c} "@, "Allowed Services:"@, "         "@, AllowedServices_text(c.allowed_services));
  let s = entry(s, ind, "\u{2502}\u{2502}\u{2514} "@, "PIN Requirements:"@, "         "@, PinRequirements_text(c.pin_requirements));
  let s = entry(s, ind, "\u{2502}\u{2514}\u{2500} "@, "Authorisation Processing:"@, " "@, AuthorisationProcessing_text(c.authorisation_processing));
  let s = entry(s, ind, "\u{251c}\u{2500}\u{2500} "@, "Interchange:"@, "              "@, Interchange_text(c.interchange));
  entry(s, ind, "\u{2514}\u{2500}\u{2500} "@, "Technology:"@, "               "@, Technology_text(c.technology))
}
}
fn main() {}
