//@@ item src/emv/cvm_list.rs struct CardholderVerificationMethodList
//@@ item src/emv/cvm_list.rs const MIN_BYTES
//@@ contract numbers byte_slice_to_u32
//@@ contract hex num_dec_digits
// core: Ord::max
pub fn vx_max(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b } else { a }) { if a < b { b } else { a } }
// core: Iterator::any over a slice
#[verifier::external_body]
pub fn vx_any<T, F: Fn(&T) -> bool>(s: &[T], f: F) -> (r: bool) requires forall|x: &T| call_requires(f, (x,)) ensures r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (&#[trigger] s@[i],), true), !r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (&#[trigger] s@[i],), false) { s.iter().any(|x| f(x)) }
/// conditions 06 to 09 compare the amount with X or Y
pub open spec fn about_amounts(c: CvmCondition) -> bool { 6 <= c.code() <= 9 }
impl CvmCondition {
//@@ fn src/emv/cv_rule/cvm_condition.rs `impl CvmCondition` references_x_or_y_value
//@ key CvmCondition.references_x_or_y_value
//@ spec
ensures r == about_amounts(self)
//@@ end
}
pub open spec fn pair(b: Seq<u8>, i: int) -> Seq<u8> { b.subrange(8 + 2 * i, 10 + 2 * i) }
/// two amounts and a whole number of CV rules
pub open spec fn list_bad(b: Seq<u8>) -> bool { b.len() < 8 || b.len() % 2 != 0 }
pub open spec fn list_err(b: Seq<u8>) -> ParseError { if b.len() < 8 { ParseError::ByteCountIncorrect { kind: Ordering::Greater, expected: 8, found: b.len() as usize } } else { ParseError::ByteCountNotDivisibleIntoComponents } }
/// the value that the bytes stand for
pub open spec fn list_is(b: Seq<u8>, v: CardholderVerificationMethodList) -> bool {
  !list_bad(b) && v.x_value == be(b.subrange(0, 4)) && v.y_value == be(b.subrange(4, 8)) && v.cv_rules@.len() == (b.len() - 8) / 2
  && forall|i: int| 0 <= i < v.cv_rules@.len() ==> CardholderVerificationRule_is(pair(b, i), #[trigger] v.cv_rules@[i])
}
pub proof fn pairs(b: Seq<u8>) requires b.len() % 2 == 0
  ensures chunked(b, 2).len() == b.len() / 2, forall|i: int| 0 <= i < b.len() / 2 ==> #[trigger] chunked(b, 2)[i] == b.subrange(2 * i, 2 * i + 2)
  decreases b.len()
{
  if b.len() > 0 {
    pairs(b.skip(2));
    let c = chunked(b, 2); let d = chunked(b.skip(2), 2);
    assert(c.len() == d.len() + 1);
    assert forall|i: int| 0 <= i < b.len() / 2 implies #[trigger] c[i] == b.subrange(2 * i, 2 * i + 2) by {
      if i > 0 { assert(c[i] == d[i - 1]); assert(d[i - 1] =~= b.subrange(2 * i, 2 * i + 2)); } else { assert(c[0] =~= b.subrange(0, 2)); }
    }
  }
}
impl CardholderVerificationMethodList {
//@@ fn src/emv/cvm_list.rs `impl TryFrom<&[u8]> for CardholderVerificationMethodList` try_from
//@ key CardholderVerificationMethodList.try_from
//@ params bytes
//@ locals x_value y_value cv_rules byte_pair
//@ loops for
//@ lower? sig /Self::Error/ => ParseError
//@ lower? body /r#type/ => kind
//@ lower? body /&bytes\[(\d+)\.\.(\d+)\]/ => vx_range(bytes, \1, \2)
//@ lower? body /\bbytes\[(\d+)\.\.\]\s*\.chunks\(/ => vx_chunks(vx_range(bytes, \1, bytes.len()), 
//@ lower? body /Vec::with_capacity\([^;]*\);/ => Vec::new();
//@ begin
	hide(CardholderVerificationRule_is);
	let ghost rest = bytes@.subrange(8, bytes@.len() as int); let ghost cs = chunked(rest, 2);
	proof { if !list_bad(bytes@) { pairs(rest); assert forall|i: int| 0 <= i < rest.len() / 2 implies #[trigger] cs[i] == pair(bytes@, i) by { assert(cs[i] =~= pair(bytes@, i)); } } }
//@ spec
ensures (r is Err) == list_bad(bytes@), r is Err ==> r->Err_0 == list_err(bytes@), r is Ok ==> list_is(bytes@, r->Ok_0)
//@ iter 0 it
//@ loop 0
	invariant !list_bad(bytes@), cs.len() == (bytes@.len() - 8) / 2, it.seq().len() == cs.len(), it.index() <= cs.len(), forall|i: int| 0 <= i < cs.len() ==> (#[trigger] it.seq()[i])@ == cs[i], forall|i: int| 0 <= i < cs.len() ==> #[trigger] cs[i] == pair(bytes@, i),
	  cv_rules@.len() == it.index(), forall|i: int| 0 <= i < cv_rules@.len() ==> CardholderVerificationRule_is(pair(bytes@, i), #[trigger] cv_rules@[i]),
//@@ end
//@@ fn src/emv/cvm_list.rs `impl DisplayBreakdown for CardholderVerificationMethodList` display_breakdown
//@ key CardholderVerificationMethodList.display_breakdown
//@ attr #[verifier::loop_isolation(false)]
//@ prints print=stdout
//@ loops for
//@ lower? body /\bconst (\w+): usize = (\d+);/ => let \1: usize = \2;
//@ lower? body /\.map_or\(\s*(\w+),\s*([\w:]+),?\s*\)/ => .map_or(\1, \2)
//@ any CardholderVerificationRule amounts_rule
//@ lower? body /(\bcv_rule(?:\s*\.\w+)+)\s*\.map_or\(false, ([\w:]+)\)/ => (match \1 { Some(vx_v) => \2(vx_v), None => false })
//@ calls max=vx_max
//@ spec
requires indentation < 255
ensures final(stdout)@ == list_report(old(stdout)@, *self, indentation as int)
//@ begin
	let ghost s0 = stdout@; let ghost ind = indentation as int;
//@ loop 0
	invariant stdout@ == rules(amounts(s0, *self, ind), self.cv_rules@, i as int, ind), ind == indentation < 255,
//@ loop 0 begin
	let ghost s1 = stdout@;
//@ loop 0 end
	proof { assert(stdout@ == one_rule(s1, self.cv_rules@[i as int], i + 1, ind)); assert(rules(amounts(s0, *self, ind), self.cv_rules@, i + 1, ind) == one_rule(s1, self.cv_rules@[i as int], i + 1, ind)); }
//@@ end
}
pub open spec fn amounts_rule(r: CardholderVerificationRule) -> bool { r.condition.internal is Some && about_amounts(r.condition.internal->0) }
/// the amounts are of interest
pub open spec fn amounts_used(v: CardholderVerificationMethodList) -> bool { v.x_value != 0 || v.y_value != 0 || exists|i: int| 0 <= i < v.cv_rules@.len() && amounts_rule(#[trigger] v.cv_rules@[i]) }
pub open spec fn larger(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn amounts(s: Seq<Ev>, v: CardholderVerificationMethodList, ind: int) -> Seq<Ev> {
  let w = larger(larger(dec(v.x_value as nat).len() as int, dec(v.y_value as nat).len() as int), 3);
  let s = if !amounts_used(v) { s } else {
    let s = head(s + tabs(ind), "X Value:"@) + tx(" "@) + tx(pad(dec(v.x_value as nat), w)) + tx(" (implicit decimal point based on application currency)"@) + tx("\n"@);
    head(s + tabs(ind), "Y Value:"@) + tx(" "@) + tx(pad(dec(v.y_value as nat), w)) + tx("\n"@) };
  headln(s + tabs(ind), "Cardholder Verification Rules:"@)
}
pub open spec fn rule_part(s: Seq<Ev>, ind: int, name: Seq<char>, v: Seq<char>) -> Seq<Ev> { strong(s + tabs(ind + 1), name) + tx(" "@) + tx(v) + tx("\n"@) }
pub open spec fn one_rule(s: Seq<Ev>, r: CardholderVerificationRule, k: int, ind: int) -> Seq<Ev> {
  let s = s + tabs(ind) + seq![Ev::Set(bold())] + tx("CVM "@) + tx(dec(k as nat)) + tx(":"@) + tx("\n"@) + seq![Ev::Reset];
  rule_part(rule_part(rule_part(s, ind, "Method:         "@, r.method.shown()), ind, "Condition:      "@, r.condition.shown()), ind, "If Unsuccessful:"@, if r.continue_if_unsuccessful { "Next CVM"@ } else { "Fail"@ })
}
/// the first k rules, numbered from one
pub open spec fn rules(s: Seq<Ev>, r: Seq<CardholderVerificationRule>, k: int, ind: int) -> Seq<Ev> decreases k { if k <= 0 { s } else { one_rule(rules(s, r, k - 1, ind), r[k - 1], k, ind) } }
pub open spec fn list_report(s: Seq<Ev>, v: CardholderVerificationMethodList, ind: int) -> Seq<Ev> { rules(amounts(s, v, ind), v.cv_rules@, v.cv_rules@.len() as int, ind) }
