// ---------------------------------------------------------------- numbers in text
/// characters that str::trim removes (std: char::is_whitespace)
pub uninterp spec fn blank(c: char) -> bool;
pub axiom fn printable_not_blank(c: char) requires '!' <= c <= '~' ensures !blank(c);
pub open spec fn unpadded(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && blank(s[0]) { unpadded(s.drop_first()) } else if s.len() > 0 && blank(s.last()) { unpadded(s.drop_last()) } else { s } }
pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
/// the number that decimal digits stand for
pub open spec fn decimal(s: Seq<char>) -> Option<nat> decreases s.len() {
  if s.len() == 0 { None } else if !digit(s.last()) { None } else if s.len() == 1 { Some((s[0] as nat - 48) as nat) }
  else { match decimal(s.drop_last()) { Some(n) => Some(10 * n + (s.last() as nat - 48) as nat), None => None } }
}
pub open spec fn signed(s: Seq<char>) -> Option<nat> { if s.len() > 0 && s[0] == '+' { decimal(s.drop_first()) } else { decimal(s) } }
pub open spec fn number(s: Seq<char>) -> Result<u16, ParseError> { match signed(unpadded(s)) { Some(n) => if n <= 65535 { Ok(n as u16) } else { Err(ParseError::InvalidNumber) }, None => Err(ParseError::InvalidNumber) } }
