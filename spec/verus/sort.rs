//@@include tree.rs
//@@include proctypes.rs
// ---------------------------------------------------------------- order
//@@include sortspec.rs
/// it is a total order, which the standard sort needs
pub proof fn lex_total(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
  ensures lexcmp(a, a) is Equal, lexcmp(a, b) is Equal ==> a =~= b, lexcmp(a, b) is Less <==> lexcmp(b, a) is Greater, lexcmp(a, b) is Less && lexcmp(b, c) is Less ==> lexcmp(a, c) is Less
  decreases a.len()
{
  if a.len() > 0 { lex_total(a.drop_first(), if b.len() > 0 { b.drop_first() } else { b }, if c.len() > 0 { c.drop_first() } else { c }); }
  if a.len() > 0 && b.len() > 0 && lexcmp(a, b) is Equal { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
}
// std: Vec<u8>::cmp
#[verifier::external_body]
pub fn vx_vec_cmp(a: &Vec<u8>, b: &Vec<u8>) -> (r: Ordering) ensures r == lexcmp(a@, b@) { a.cmp(b) }
// std: <[T]>::sort is a stable sort by T's order, here that of `node_cmp` below
#[verifier::external_body]
pub fn vx_sort(v: &mut Vec<ProcessedEmvNode>) ensures exists|p: Seq<int>| #[trigger] placed(old(v)@, final(v)@, p) && forall|i: int| 0 <= i < p.len() ==> final(v)@[i] == old(v)@[#[trigger] p[i]] { unimplemented!() }

impl ProcessedEmvTag {
//@@ fn src/emv/tlv_parsing/mod.rs `impl ProcessedEmvTag` get_raw_tag
//@ lower body /ProcessedEmvTag::Raw \{ raw_tag \}\s*\| ProcessedEmvTag::Annotated \{ raw_tag, \.\. \}\s*\| ProcessedEmvTag::Parsed \{ raw_tag, \.\. \} => raw_tag,/ => ProcessedEmvTag::Raw { raw_tag } => raw_tag, ProcessedEmvTag::Annotated { raw_tag, .. } => raw_tag, ProcessedEmvTag::Parsed { raw_tag, .. } => raw_tag,
//@ spec
ensures *r == raw_of(*self)
//@@ end
//@@ fn src/emv/tlv_parsing/mod.rs `impl Ord for ProcessedEmvTag` cmp as ptag_cmp
//@ params self other
//@ lower body /self\.get_raw_tag\(\)\.cmp\(other\.get_raw_tag\(\)\)/ => self.get_raw_tag().tag_cmp(other.get_raw_tag())
//@ spec
ensures r == lexcmp(raw_of(*self).tag@, raw_of(*other).tag@)
//@@ end
//@@ fn src/emv/tlv_parsing/mod.rs `impl PartialOrd for ProcessedEmvTag` partial_cmp as ptag_partial_cmp
//@ params self other
//@ lower body /self\.cmp\(/ => self.ptag_cmp(
//@ spec
ensures r == Some(lexcmp(raw_of(*self).tag@, raw_of(*other).tag@))
//@@ end
}
impl RawEmvTag {
//@@ fn src/emv/tlv_parsing/mod.rs `impl Ord for RawEmvTag` cmp as tag_cmp
//@ params self other
//@ lower body /self\.tag\.cmp\(&other\.tag\)/ => vx_vec_cmp(&self.tag, &other.tag)
//@ spec
ensures r == lexcmp(self.tag@, other.tag@)
//@@ end
//@@ fn src/emv/tlv_parsing/mod.rs `impl PartialOrd for RawEmvTag` partial_cmp as tag_partial_cmp
//@ params self other
//@ lower body /self\.cmp\(/ => self.tag_cmp(
//@ spec
ensures r == Some(lexcmp(self.tag@, other.tag@))
//@@ end
}
impl ProcessedEmvNode {
//@@ fn src/emv/tlv_parsing/mod.rs `impl Ord for ProcessedEmvNode` cmp as node_cmp
//@ params self other
//@ lower body /self\.tag\.cmp\(/ => self.tag.ptag_cmp(
//@ spec
ensures r == lexcmp(key(*self), key(*other))
//@@ end
//@@ fn src/emv/tlv_parsing/mod.rs `impl PartialOrd for ProcessedEmvNode` partial_cmp as node_partial_cmp
//@ params self other
//@ lower body /self\.cmp\(/ => self.node_cmp(
//@ spec
ensures r == Some(lexcmp(key(*self), key(*other)))
//@@ end
}
impl ProcessedEmvBlock {
//@@ fn src/emv/tlv_parsing/mod.rs `impl ProcessedEmvBlock` sort_nodes
//@ locals node
//@ loops for
//@ lower body /self\.nodes\.sort\(\);/ => vx_sort(&mut self.nodes); let ghost s0 = old(self).nodes@; let ghost s1 = self.nodes@; let ghost p = choose|p: Seq<int>| #[trigger] placed(s0, s1, p) && forall|i: int| 0 <= i < p.len() ==> s1[i] == s0[#[trigger] p[i]];
//@ lower body /for node in &mut self\.nodes/ => let vx_n = self.nodes.len(); for vx_k in 0..vx_n
//@ spec
ensures sorted_from(old(self).nodes@, final(self).nodes@)
decreases *old(self)
//@ loop 0
	invariant vx_n == s1.len(), s0 == old(self).nodes@, placed(s0, s1, p), forall|i: int| 0 <= i < p.len() ==> s1[i] == s0[#[trigger] p[i]],
	  self.nodes@.len() == s1.len(),
	  forall|i: int| 0 <= i < s1.len() ==> (#[trigger] self.nodes@[i]).tag == s1[i].tag,
	  forall|i: int| vx_k <= i < s1.len() ==> #[trigger] self.nodes@[i] == s1[i],
	  forall|i: int| 0 <= i < vx_k ==> sorted_from(s1[i].child_block.nodes@, (#[trigger] self.nodes@[i]).child_block.nodes@),
//@ loop 0 begin
	proof { assert(s0[p[vx_k as int]] == s1[vx_k as int]); assert(decreases_to!(old(self).nodes@ => s0[p[vx_k as int]])); }
	let node = &mut self.nodes[vx_k];
//@ tail
	proof {
	  assert forall|i: int, j: int| 0 <= i < j < self.nodes@.len() implies ({ let c = #[trigger] lexcmp(key(self.nodes@[i]), key(self.nodes@[j])); c is Less || c is Equal && p[i] < p[j] }) by {
	    let c = lexcmp(key(s1[i]), key(s1[j])); assert(self.nodes@[i].tag == s1[i].tag && self.nodes@[j].tag == s1[j].tag); }
	  assert(placed(s0, self.nodes@, p));
	}
//@@ end
}
}
fn main() {}
