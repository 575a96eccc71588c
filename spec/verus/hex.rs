use vstd::prelude::*;
use core::cmp::Ordering;
use vstd::string::*;
use vstd::utf8::*;
#[allow(unused_imports)]
use vstd::std_specs::iter::IteratorSpec;
//@@include hexspec.rs
verus! {
global size_of usize == 8;
//@@ item src/error.rs enum ParseError /r#type/ => kind
// std: slice iteration, filter_map, fuse
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VxFilterMap<T> { p: core::marker::PhantomData<T> }
impl<T> VxFilterMap<T> {
  pub uninterp spec fn rest(&self) -> Seq<T>;
  #[verifier::external_body]
  pub fn next(&mut self) -> (r: Option<T>)
    ensures old(self).rest().len() > 0 ==> r == Some(old(self).rest()[0]) && final(self).rest() == old(self).rest().drop_first(),
      old(self).rest().len() == 0 ==> r is None && final(self).rest() == old(self).rest()
  { unimplemented!() }
}
pub open spec fn fm<A, T>(f: spec_fn(A) -> Option<T>, s: Seq<A>) -> Seq<T> decreases s.len() {
  if s.len() == 0 { Seq::empty() } else { let r = fm(f, s.drop_last()); match f(s.last()) { Some(v) => r.push(v), None => r } }
}
#[verifier::external_body]
pub fn vx_filter_map_fuse<F: Fn(&u8) -> Option<u8>>(s: &[u8], f: F, Ghost(g): Ghost<spec_fn(u8) -> Option<u8>>) -> (r: VxFilterMap<u8>)
  requires forall|x: &u8| call_requires(f, (x,)), forall|x: &u8, o: Option<u8>| call_ensures(f, (x,), o) ==> o == g(*x)
  ensures r.rest() == fm(g, s@)
{ unimplemented!() }
pub proof fn fm_nibbles(b: Seq<u8>) ensures fm(|x: u8| hexval(x), b) == nibbles(b) decreases b.len() { if b.len() > 0 { fm_nibbles(b.drop_last()); } }
// std: str::contains with a predicate
#[verifier::external_body]
pub fn vx_contains<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
  requires forall|c: char| call_requires(f, (c,))
  ensures r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (#[trigger] s@[i],), true), !r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (#[trigger] s@[i],), false)
{ unimplemented!() }
// std: String::with_capacity, String::push, bool::then_some
pub assume_specification [std::string::String::with_capacity] (n: usize) -> (r: std::string::String) ensures r@ == Seq::<char>::empty();
#[verifier::external_body]
pub fn vx_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
pub fn vx_then_some(b: bool, v: u32) -> (r: Option<u32>) ensures r == (if b { Some(v) } else { None }) { b.then_some(v) }
// std: iter::successors and count
pub open spec fn step<F: Fn(&u32) -> Option<u32>>(f: F, a: u32, b: u32) -> bool { call_ensures(f, (&a,), Some(b)) }
pub open spec fn chain<F: Fn(&u32) -> Option<u32>>(f: F, s: Seq<u32>) -> bool {
  s.len() > 0 && (forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] step(f, s[i], s[i+1])) && call_ensures(f, (&s.last(),), None) }
#[verifier::external_body]
pub fn vx_successors_count<F: Fn(&u32) -> Option<u32>>(first: Option<u32>, f: F) -> (r: usize)
  requires first is Some, forall|n: &u32| call_requires(f, (n,))
  ensures exists|s: Seq<u32>| #[trigger] chain(f, s) && s[0] == first->Some_0 && s.len() == r
{ unimplemented!() }
//@@include decspec.rs
pub proof fn chain_digits(s: Seq<u32>, i: int)
  requires 0 <= i < s.len(), forall|j: int| 0 <= j < s.len() - 1 ==> #[trigger] s[j] >= 10 && s[j+1] == s[j] / 10, s.last() < 10
  ensures dec(s[i] as nat).len() == s.len() - i
  decreases s.len() - i
{ if i < s.len() - 1 { chain_digits(s, i + 1); } }

//@@ fn src/util.rs parse_hex_str
//@ params hex_asm
//@ locals hex_bytes bytes h l
//@ loops whilelet
//@ lower body /hex_asm\s*\.as_bytes\(\)\s*\.iter\(\)\s*\.filter_map\(\|b\| match b (\{.*?\n\t\t\})\)\s*\.fuse\(\);/ => vx_filter_map_fuse(hex_asm.as_bytes(), |b: &u8| -> (o: Option<u8>) ensures o == hexval(*b) { let b = *b; match b \1 }, Ghost(|x: u8| hexval(x)));
 proof { fm_nibbles(encode_utf8(hex_asm@)); nibbles_small(encode_utf8(hex_asm@)); }
 let ghost all = nibbles(encode_utf8(hex_asm@));
//@ spec
ensures r@ == hex_bytes_of(hex_asm@)
//@ loop 0
	invariant_except_break all == nibbles(encode_utf8(hex_asm@)), forall|i: int| 0 <= i < all.len() ==> #[trigger] all[i] < 16,
	  2 * bytes@.len() <= all.len(), hex_bytes.rest() =~= all.skip(2 * bytes@.len() as int),
	  forall|k: int| 0 <= k < bytes@.len() ==> #[trigger] bytes@[k] == pairs(all)[k],
	ensures bytes@ =~= pairs(all)
	decreases hex_bytes.rest().len()
//@ loop 0 begin
		proof { assert(h == all[2 * bytes@.len() as int]); assert(l == all[2 * bytes@.len() as int + 1]); }
		assert(h < 16 && l < 16 ==> (h << 4 | l) == h * 16 + l) by (bit_vector);
//@@ end

//@@ fn src/util.rs parse_hex_str_strict
//@ params hex_asm
//@ lower body /hex_asm\.contains\(\|c\| (.*?\))\)\n/ => vx_contains(hex_asm, |c: char| -> (b: bool) ensures b == (hexval(c as u8) is None) { \1 })
//@ spec
ensures is_hex(hex_asm@) ==> r is Ok && r->Ok_0@ == hex_bytes_of(hex_asm@), !is_hex(hex_asm@) ==> r == Err::<Vec<u8>, ParseError>(ParseError::InvalidBytes)
//@@ end

//@@ fn src/util.rs `pub fn bytes_to_str(bytes: &[u8]) -> String` nibble_to_char
//@ params num
//@ spec
requires num < 16
ensures r == upper_digit(num)
//@@ end
//@@ fn src/util.rs bytes_to_str
//@ params bytes
//@ locals result byte
//@ loops for
//@ lower body /fn nibble_to_char.*?\n\t\}\n/ => 
//@ lower body /result\.push\(/ => vx_push(&mut result,
//@ spec
requires bytes@.len() * 2 <= usize::MAX
ensures r@ == hex_text(bytes@)
//@ loop 0
	invariant result@ =~= hex_text(bytes@).take(2 * vx_i.index()),
//@ loop 0 begin
		assert((0b1111_0000 & byte) >> 4 == byte / 16 && (0b0000_1111 & byte) == byte % 16 && byte / 16 < 16) by (bit_vector);
//@ iter 0 vx_i
//@@ end

//@@ fn src/util.rs trim_leading_0_bytes
//@ params bytes
//@ loops while
//@ spec
ensures final(bytes)@ == trimmed(old(bytes)@)
//@ loop 0
	invariant_except_break trimmed(bytes@) == trimmed(old(bytes)@)
	ensures bytes@ == trimmed(old(bytes)@)
	decreases bytes@.len()
//@ loop 0 begin
		let ghost b0 = bytes@;
//@ loop 0 end
		proof { assert(bytes@ =~= b0.drop_first()); }
//@@ end

//@@ fn src/util.rs num_dec_digits
//@ params value
//@ lower body /(\(n [^()]*\))\.then_some\(/ => vx_then_some(\1,
//@ lower body /successors\(Some\(value\), \|&n\| (.*?)\)\.count\(\)/ => { let vx_f = |n: &u32| -> (o: Option<u32>) ensures o == (if *n >= 10 { Some((*n / 10) as u32) } else { None }) { let n = *n; \1 }; let vx_r = vx_successors_count(Some(value), vx_f); proof { let s = choose|s: Seq<u32>| #[trigger] chain(vx_f, s) && s[0] == value && s.len() == vx_r; assert forall|j: int| 0 <= j < s.len() - 1 implies #[trigger] s[j] >= 10 && s[j+1] == s[j] / 10 by { assert(step(vx_f, s[j], s[j+1])); } assert(call_ensures(vx_f, (&s.last(),), None)); chain_digits(s, 0); } vx_r }
//@ spec
ensures r == dec(value as nat).len()
//@@ end
}
fn main() {}
