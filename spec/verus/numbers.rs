// Big-endian numbers.
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@@include be.rs
//@@ item src/util.rs const BYTES_PER_32_BITS
//@@ item src/util.rs const BYTES_PER_64_BITS
// std: u32::from_be_bytes and u64::from_be_bytes
#[verifier::external_body] pub fn vx_u32_be(b: [u8; 4]) -> (r: u32) ensures r == be(b@) { u32::from_be_bytes(b) }
#[verifier::external_body] pub fn vx_u64_be(b: [u8; 8]) -> (r: u64) ensures r == be(b@) { u64::from_be_bytes(b) }
/// zeros in front change nothing
pub proof fn padded(z: Seq<u8>, b: Seq<u8>) requires forall|i: int| 0 <= i < z.len() ==> #[trigger] z[i] == 0 ensures be(z + b) == be(b) decreases z.len() + b.len() {
  let s = z + b;
  if b.len() > 0 { assert(s.drop_last() =~= z + b.drop_last()); padded(z, b.drop_last()); }
  else if z.len() > 0 { assert(s =~= z); assert(z.drop_last() + b =~= z.drop_last()); padded(z.drop_last(), b); }
  else { assert(s =~= b); }
}
/// the first i bytes moved to the end of n
pub open spec fn filled(b: Seq<u8>, n: int, i: int, k: int) -> u8 { if n - b.len() <= k < n - b.len() + i { b[k - n + b.len()] } else { 0u8 } }
//@@ fn src/util.rs byte_slice_to_u32
//@ params bytes
//@ locals provided_bytes_length all_bytes i
//@ loops for
//@ lower? body /\bassert!\(([^;]*)\);/ => assert(\1);
//@ lower body /\bu32::from_be_bytes\(/ => vx_u32_be(
//@ iter 0 it
//@ begin
	proof { assert forall|s: Seq<u8>| #![trigger be(s)] s.len() == 4 && (forall|k: int| 0 <= k < 4 ==> #[trigger] s[k] == filled(bytes@, 4, bytes@.len() as int, k)) implies be(s) == be(bytes@) by { let z = Seq::new((4 - bytes@.len()) as nat, |i: int| 0u8); padded(z, bytes@); assert(s =~= z + bytes@); } }
//@ spec
requires bytes@.len() <= 4
ensures r == be(bytes@)
//@ loop 0
	invariant provided_bytes_length == bytes@.len() <= 4, all_bytes@.len() == 4, forall|k: int| 0 <= k < 4 ==> #[trigger] all_bytes@[k] == filled(bytes@, 4, it.index() as int, k), it.seq().len() == bytes@.len(), it.index() <= bytes@.len(),
//@@ end
//@@ fn src/util.rs byte_slice_to_u64
//@ params bytes
//@ locals provided_bytes_length all_bytes i
//@ loops for
//@ lower? body /\bassert!\(([^;]*)\);/ => assert(\1);
//@ lower body /\bu64::from_be_bytes\(/ => vx_u64_be(
//@ iter 0 it
//@ begin
	proof { assert forall|s: Seq<u8>| #![trigger be(s)] s.len() == 8 && (forall|k: int| 0 <= k < 8 ==> #[trigger] s[k] == filled(bytes@, 8, bytes@.len() as int, k)) implies be(s) == be(bytes@) by { let z = Seq::new((8 - bytes@.len()) as nat, |i: int| 0u8); padded(z, bytes@); assert(s =~= z + bytes@); } }
//@ spec
requires bytes@.len() <= 8
ensures r == be(bytes@)
//@ loop 0
	invariant provided_bytes_length == bytes@.len() <= 8, all_bytes@.len() == 8, forall|k: int| 0 <= k < 8 ==> #[trigger] all_bytes@[k] == filled(bytes@, 8, it.index() as int, k), it.seq().len() == bytes@.len(), it.index() <= bytes@.len(),
//@@ end
}
fn main() {}
