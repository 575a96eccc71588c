pub open spec fn all_eq_str(d: Seq<char>, c: char) -> bool { forall|j: int| 0 <= j < d.len() ==> #[trigger] d[j] == c }
/// the size in bytes of a text
pub open spec fn utf8_len(s: Seq<char>) -> nat { vstd::utf8::encode_utf8(s).len() }
pub open spec fn masked_str(d: Seq<char>, m: Seq<char>) -> bool {
  utf8_len(d) >= 2 && exists|k: int| 0 <= k < m.len() && all_eq_str(d, #[trigger] m[k])
}
