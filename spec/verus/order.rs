pub open spec fn low(r: EnabledBitRange) -> int { r.offset - r.len + 1 }
/// ranges from the highest bit to the lowest, each within a byte, none overlapping, all of them in the n bits
pub open spec fn in_order(b: Seq<EnabledBitRange>, n: int) -> bool {
  (forall|i: int| 0 <= i < b.len() ==> { let r = #[trigger] b[i]; 1 <= r.len && 0 <= low(r) && r.offset < n && low(r) / 8 == r.offset as int / 8 })
  && forall|i: int, j: int| 0 <= i < j < b.len() ==> (#[trigger] b[j]).offset < low(#[trigger] b[i])
}
