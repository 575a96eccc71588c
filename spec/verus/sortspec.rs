/// the order of byte sequences: byte by byte, a prefix first
pub open spec fn lexcmp(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len() {
  if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
  else if b.len() == 0 { Ordering::Greater }
  else if a[0] < b[0] { Ordering::Less } else if a[0] > b[0] { Ordering::Greater } else { lexcmp(a.drop_first(), b.drop_first()) }
}
pub open spec fn key(n: ProcessedEmvNode) -> Seq<u8> { raw_of(n.tag).tag@ }
pub open spec fn perm(p: Seq<int>) -> bool { (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len()) && forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j] }
/// b is a in ascending order of tags, equal tags in their old order; p says where each came from
pub open spec fn ordered(b: Seq<ProcessedEmvNode>, p: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < b.len() ==> { let c = #[trigger] lexcmp(key(b[i]), key(b[j])); c is Less || c is Equal && p[i] < p[j] } }
pub open spec fn placed(a: Seq<ProcessedEmvNode>, b: Seq<ProcessedEmvNode>, p: Seq<int>) -> bool { p.len() == a.len() && b.len() == a.len() && perm(p) && ordered(b, p) }
/// the same at every level
pub open spec fn sorted_from(a: Seq<ProcessedEmvNode>, b: Seq<ProcessedEmvNode>) -> bool decreases b {
  exists|p: Seq<int>| #[trigger] placed(a, b, p) && forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).tag == a[p[i]].tag && sorted_from(a[p[i]].child_block.nodes@, b[i].child_block.nodes@)
}
