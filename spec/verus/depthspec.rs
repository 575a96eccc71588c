/// no more than h levels
pub open spec fn deep(s: Seq<SNode>, h: int) -> bool decreases s { s.len() == 0 || h > 0 && forall|i: int| 0 <= i < s.len() ==> deep((#[trigger] s[i]).kids, h - 1) }
/// a decoded tree has no more than 251 levels
pub proof fn ber_deep(b: Seq<u8>, i: int, m: Seq<char>, depth: int) requires 0 <= depth <= 250
  ensures ber(b, i, m, depth) is Ok ==> deep(ber(b, i, m, depth)->Ok_0, 251 - depth)
  decreases 250 - depth, b.len() - i
{
  if 0 <= i < b.len() && hdr(b, i) is Ok {
    let h = hdr(b, i)->Ok_0; let s = i + h.t + h.l;
    if h.t + h.l + h.n > 0 {
      let d = sdata(b.subrange(s, s + h.n), m);
      ber_deep(b, s + h.n, m, depth);
      if d is Normal && depth < 250 { ber_deep(d->Normal_0, 0, m, depth + 1); }
      let k = kids(dot_of(b[i]), d, m, depth);
      assert(deep(k, 250 - depth));
      if ber(b, i, m, depth) is Ok { let r = ber(b, i, m, depth)->Ok_0; let rest = ber(b, s + h.n, m, depth)->Ok_0; assert forall|j: int| 0 <= j < r.len() implies deep((#[trigger] r[j]).kids, 250 - depth) by { if j > 0 { assert(r[j] == rest[j - 1]); } else { assert(r[0].kids == k); } } }
    }
  }
}
pub proof fn find_in(s: Seq<char>, c: char, i: int) requires i >= 0 ensures find(s, c, i) == -1 || i <= find(s, c, i) < s.len() decreases s.len() - i { if i < s.len() && s[i] != c { find_in(s, c, i + 1); } }
pub proof fn elem_next(s: Seq<char>, i: int, m: Seq<char>) requires 0 <= i ensures elem(s, i, m) is Ok ==> i < elem(s, i, m)->Ok_0.next <= s.len() + 1
{ find_in(s, ':', i + 1); let c1 = find(s, ':', i + 1); if c1 >= 0 { find_in(s, ':', c1 + 1); } }
pub proof fn ing_deep(s: Seq<char>, i: int, m: Seq<char>)
  ensures ing(s, i, m) is Ok ==> deep(ing(s, i, m)->Ok_0, 251)
  decreases s.len() + 2 - i
{
  if 0 <= i < s.len() && elem(s, i, m) is Ok {
    let x = elem(s, i, m)->Ok_0; elem_next(s, i, m);
    if i < x.next <= s.len() + 1 {
      ing_deep(s, x.next, m);
      if x.data is Normal { ber_deep(x.data->Normal_0, 0, m, 1); }
      let k = kids(dot_of(x.tag[0]), x.data, m, 0);
      assert(deep(k, 250));
      if ing(s, i, m) is Ok && x.typ == 'T' { let r = ing(s, i, m)->Ok_0; let rest = ing(s, x.next, m)->Ok_0; assert forall|j: int| 0 <= j < r.len() implies deep((#[trigger] r[j]).kids, 250) by { if j > 0 { assert(r[j] == rest[j - 1]); } else { assert(r[0].kids == k); } } }
    }
  }
}
pub proof fn pnodes_at(s: Seq<RawEmvNode>, k: nat, i: int) requires 0 <= i < k <= s.len(), pnodes(s, k) is Ok
  ensures pnodes(s, k)->Ok_0.len() == k, pnode(s[i]) == Ok::<PNode, ParseError>(pnodes(s, k)->Ok_0[i]) decreases k
{ if k > 1 { pnodes_at(s, (k - 1) as nat, if i < k - 1 { i } else { 0 }); } else { assert(pnodes(s, 0)->Ok_0.len() == 0); } }
/// processing keeps the depth
pub proof fn process_keeps(s: Seq<RawEmvNode>, t: Seq<ProcessedEmvNode>, h: int)
  requires deep(vnodes(s), h), pnodes(s, s.len()) == Ok::<Seq<PNode>, ParseError>(vpnodes(t)) ensures within(t, h) decreases s
{
  if s.len() > 0 { pnodes_at(s, s.len(), 0); }
  assert(vpnodes(t).len() == t.len()); assert(vnodes(s).len() == s.len());
  if s.len() > 0 { let x = vnodes(s)[0]; }
  assert forall|i: int| 0 <= i < t.len() implies h > 0 && within((#[trigger] t[i]).child_block.nodes@, h - 1) by {
    pnodes_at(s, s.len(), i);
    assert(vnodes(s)[i] == vnode(s[i])); assert(vpnodes(t)[i] == vpnode(t[i]));
    process_keeps(s[i].child_block.nodes@, t[i].child_block.nodes@, h - 1);
  }
}
/// so does sorting
pub proof fn sort_keeps(a: Seq<ProcessedEmvNode>, b: Seq<ProcessedEmvNode>, h: int) requires within(a, h), sorted_from(a, b) ensures within(b, h) decreases b
{
  let p = choose|p: Seq<int>| #[trigger] placed(a, b, p) && forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]).tag == a[p[i]].tag && sorted_from(a[p[i]].child_block.nodes@, b[i].child_block.nodes@);
  assert forall|i: int| 0 <= i < b.len() implies within((#[trigger] b[i]).child_block.nodes@, h - 1) by { assert(0 <= p[i] < p.len()); assert(within(a[p[i]].child_block.nodes@, h - 1)); sort_keeps(a[p[i]].child_block.nodes@, b[i].child_block.nodes@, h - 1); }
}
