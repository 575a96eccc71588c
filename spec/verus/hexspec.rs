pub mod hx { use vstd::prelude::*; use vstd::utf8::*; use vstd::string::*;
verus! {
/// the value of a hexadecimal digit
pub open spec fn hexval(b: u8) -> Option<u8> {
  if 0x30 <= b <= 0x39 { Some((b - 0x30) as u8) } else if 0x41 <= b <= 0x46 { Some((b - 0x41 + 10) as u8) }
  else if 0x61 <= b <= 0x66 { Some((b - 0x61 + 10) as u8) } else { None }
}
/// the values of the hexadecimal digits, everything else skipped
pub open spec fn nibbles(b: Seq<u8>) -> Seq<u8> decreases b.len() {
  if b.len() == 0 { Seq::empty() } else {
    let r = nibbles(b.drop_last());
    match hexval(b.last()) { Some(v) => r.push(v), None => r } }
}
pub open spec fn pairs(n: Seq<u8>) -> Seq<u8> { Seq::new(n.len() / 2, |i: int| (n[2*i] * 16 + n[2*i+1]) as u8) }
pub open spec fn hex_bytes_of(s: Seq<char>) -> Seq<u8> { pairs(nibbles(encode_utf8(s))) }
/// only hexadecimal digits
pub open spec fn is_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> hex_char(#[trigger] s[i]) }
pub open spec fn hex_char(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub open spec fn upper_digit(n: u8) -> char { if n < 10 { (0x30 + n) as u8 as char } else { (0x41 + n - 10) as u8 as char } }
pub open spec fn hex_text(b: Seq<u8>) -> Seq<char> { Seq::new(2 * b.len(), |i: int| upper_digit(if i % 2 == 0 { (b[i/2] / 16) as u8 } else { (b[i/2] % 16) as u8 })) }
pub open spec fn trimmed(b: Seq<u8>) -> Seq<u8> decreases b.len() { if b.len() > 1 && b[0] == 0 { trimmed(b.drop_first()) } else { b } }
pub proof fn nibbles_small(b: Seq<u8>) ensures forall|i: int| 0 <= i < nibbles(b).len() ==> #[trigger] nibbles(b)[i] < 16, nibbles(b).len() <= b.len() decreases b.len()
{ if b.len() > 0 { nibbles_small(b.drop_last()); } }
pub proof fn nibbles_all(b: Seq<u8>) requires forall|i: int| 0 <= i < b.len() ==> hexval(#[trigger] b[i]) is Some
  ensures nibbles(b).len() == b.len(), forall|i: int| 0 <= i < b.len() ==> nibbles(b)[i] == hexval(#[trigger] b[i])->Some_0 decreases b.len()
{ if b.len() > 0 { assert forall|i: int| 0 <= i < b.drop_last().len() implies hexval(#[trigger] b.drop_last()[i]) is Some by { assert(b.drop_last()[i] == b[i]); } nibbles_all(b.drop_last());
   assert(nibbles(b) =~= nibbles(b.drop_last()).push(hexval(b.last())->Some_0));
   assert forall|i: int| 0 <= i < b.len() implies nibbles(b)[i] == hexval(#[trigger] b[i])->Some_0 by { if i < b.len() - 1 { assert(b.drop_last()[i] == b[i]); } } } }
pub proof fn upper_digit_hex(n: u8) requires n < 16 ensures hexval(upper_digit(n) as u8) == Some(n), upper_digit(n) as u32 <= 0x7F, hex_char(upper_digit(n)) {}
/// reading back what was written
pub proof fn round_trip(b: Seq<u8>) ensures hex_bytes_of(hex_text(b)) == b, is_hex(hex_text(b))
{
  let t = hex_text(b);
  assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] as u32 <= 0x7F && hexval(t[i] as u8) is Some && hex_char(t[i]) && hexval(t[i] as u8) == Some(if i % 2 == 0 { (b[i/2] / 16) as u8 } else { (b[i/2] % 16) as u8 }) by {
    upper_digit_hex(if i % 2 == 0 { (b[i/2] / 16) as u8 } else { (b[i/2] % 16) as u8 }); }
  assert(is_ascii_chars(t));
  is_ascii_chars_encode_utf8(t);
  let e = encode_utf8(t);
  assert forall|i: int| 0 <= i < e.len() implies hexval(#[trigger] e[i]) is Some by { assert(e[i] == t[i] as u8); }
  nibbles_all(e);
  assert forall|k: int| 0 <= k < b.len() implies #[trigger] pairs(nibbles(e))[k] == b[k] by {
    assert(e[2*k] == t[2*k] as u8 && e[2*k+1] == t[2*k+1] as u8);
  }
  assert(pairs(nibbles(e)) =~= b);
}
}}
use hx::*;
