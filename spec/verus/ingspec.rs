// ---------------------------------------------------------------- Ingenico TLV
//@@include maskspec.rs
/// where c first stands from i on; -1 if nowhere
pub open spec fn find(s: Seq<char>, c: char, i: int) -> int decreases s.len() - i {
  if i < 0 || i >= s.len() { -1 } else if s[i] == c { i } else { find(s, c, i + 1) }
}
pub struct Elem { pub typ: char, pub tag: Seq<u8>, pub data: SData, pub next: int }
/// type, tag in hex, ':', length in hex, ':', 'a' or 'h', content, any separator
pub open spec fn elem(s: Seq<char>, i: int, m: Seq<char>) -> Result<Elem, PErr> {
  let c1 = find(s, ':', i + 1);
  if c1 < 0 { Err(PErr::NonCompliant) } else {
  let tag = trimmed(hex_bytes_of(s.subrange(i + 1, c1)));
  if !is_hex(s.subrange(i + 1, c1)) || tag.len() == 0 { Err(PErr::NonCompliant) } else {
  let c2 = find(s, ':', c1 + 1);
  if c2 < 0 || !is_hex(s.subrange(c1 + 1, c2)) { Err(PErr::NonCompliant) } else {
  let lb = hex_bytes_of(s.subrange(c1 + 1, c2));
  if lb.len() > 4 { Err(PErr::Unsupported) } else if c2 + 1 >= s.len() || !(s[c2 + 1] == 'a' || s[c2 + 1] == 'h') { Err(PErr::NonCompliant) } else {
  let w = if s[c2 + 1] == 'a' { be(lb) as int } else { 2 * be(lb) as int };
  let e = c2 + 2 + w;
  if e > s.len() { Err(PErr::NonCompliant) } else {
  let t = s.subrange(c2 + 2, e);
  if masked_str(t, m) { Ok(Elem { typ: s[i], tag, data: SData::Masked, next: e + 1 }) }
  else if s[c2 + 1] == 'a' { Ok(Elem { typ: s[i], tag, data: SData::Normal(encode_utf8(t)), next: e + 1 }) }
  else if is_hex(t) { Ok(Elem { typ: s[i], tag, data: SData::Normal(hex_bytes_of(t)), next: e + 1 }) }
  else { Err(PErr::NonCompliant) } } } } } }
}
pub open spec fn ing(s: Seq<char>, i: int, m: Seq<char>) -> Result<Seq<SNode>, PErr>
  decreases s.len() + 2 - i
{
  if i < 0 || i >= s.len() { Ok(Seq::empty()) } else {
    match elem(s, i, m) {
      Err(e) => Err(e),
      Ok(x) => if x.next <= i || x.next > s.len() + 1 { arbitrary() } else { match ing(s, x.next, m) {
        Err(e) => Err(e),
        Ok(rest) => if x.typ == 'T' { Ok(seq![SNode { tag: x.tag, class: class_of(x.tag[0]), dot: dot_of(x.tag[0]), data: x.data, kids: kids(dot_of(x.tag[0]), x.data, m, 0) }] + rest) } else { Ok(rest) } } },
    }
  }
}
pub open spec fn ingenico(s: Seq<char>, m: Seq<char>) -> Result<Seq<SNode>, PErr> { if is_ascii_chars(s) { ing(s, 0, m) } else { Err(PErr::NonCompliant) } }
pub broadcast proof fn hex_len(s: Seq<char>) ensures (#[trigger] hex_bytes_of(s)).len() <= encode_utf8(s).len() { nibbles_small(encode_utf8(s)); }
pub broadcast proof fn sub_len(s: Seq<char>, i: int, j: int) requires is_ascii_chars(s), 0 <= i <= j <= s.len() ensures is_ascii_chars(#[trigger] s.subrange(i, j)), encode_utf8(s.subrange(i, j)).len() == j - i
{ is_ascii_chars_encode_utf8(s.subrange(i, j)); }
pub open spec fn enode(x: Elem, m: Seq<char>) -> SNode { SNode { tag: x.tag, class: class_of(x.tag[0]), dot: dot_of(x.tag[0]), data: x.data, kids: kids(dot_of(x.tag[0]), x.data, m, 0) } }
pub proof fn ing_step(s: Seq<char>, i: int, m: Seq<char>, done: Seq<SNode>)
  requires 0 <= i < s.len(), ing(s, 0, m) == joined(done, ing(s, i, m))
  ensures elem(s, i, m) is Err ==> ing(s, 0, m) == Err::<Seq<SNode>, PErr>(elem(s, i, m)->Err_0),
    elem(s, i, m) is Ok ==> { let x = elem(s, i, m)->Ok_0; let d = if x.typ == 'T' { done.push(enode(x, m)) } else { done };
      i < x.next <= s.len() + 1 ==> ing(s, 0, m) == joined(d, ing(s, x.next, m)) && (x.next >= s.len() ==> ing(s, 0, m) == Ok::<Seq<SNode>, PErr>(d)) }
{
  if elem(s, i, m) is Ok { let x = elem(s, i, m)->Ok_0; if i < x.next <= s.len() + 1 { let r = ing(s, x.next, m); if r is Ok { assert(done + (seq![enode(x, m)] + r->Ok_0) =~= done.push(enode(x, m)) + r->Ok_0); if x.next >= s.len() { assert(done.push(enode(x, m)) + r->Ok_0 =~= done.push(enode(x, m))); assert(done + r->Ok_0 =~= done); } } } }
}
pub open spec fn joined(a: Seq<SNode>, r: Result<Seq<SNode>, PErr>) -> Result<Seq<SNode>, PErr> { match r { Err(e) => Err(e), Ok(rest) => Ok(a + rest) } }
pub proof fn vnodes_push(s: Seq<RawEmvNode>, n: RawEmvNode) ensures vnodes(s.push(n)) == vnodes(s).push(vnode(n)) { assert(vnodes(s.push(n)) =~= vnodes(s).push(vnode(n))); }
pub proof fn vnode_is(n: RawEmvNode) ensures vnode(n) == (SNode { tag: n.tag.tag@, class: n.tag.class, dot: n.tag.data_object_type, data: vdata(n.tag.data), kids: vnodes(n.child_block.nodes@) }) {}
pub broadcast proof fn find_end(s: Seq<char>, c: char, i: int) requires i >= s.len() ensures #[trigger] find(s, c, i) == -1 {}
