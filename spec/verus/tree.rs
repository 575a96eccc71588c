// The real data types of src/emv/tlv_parsing/mod.rs and the abstract tree they denote.
use vstd::prelude::*;
use core::cmp::Ordering;
#[allow(unused_imports)]
use vstd::std_specs::convert::*;
#[allow(unused_imports)]
use vstd::std_specs::iter::IteratorSpec;
verus! {
pub mod lem { use vstd::prelude::*;
 verus! {
pub uninterp spec fn to_vec_of<T>(s: Seq<T>, r: Seq<T>) -> bool;
pub broadcast proof fn to_vec_u8(s: Seq<u8>, r: Seq<u8>)
  requires #[trigger] to_vec_of(s, r), r.len() == s.len(), forall|i: int| #![trigger r[i]] 0 <= i < s.len() ==> cloned::<u8>(s[i], r[i]),
  ensures r == s
{ assert(r =~= s); }
pub broadcast proof fn and_comm(a: u8, b: u8)
  ensures #[trigger] (a & b) == b & a, a & b <= a, a & b <= b
{ assert((a & b) == b & a && a & b <= a && a & b <= b) by (bit_vector); }
}}
use lem::*;
broadcast use {lem::to_vec_u8, lem::and_comm};
global size_of usize == 8;

//@@ item src/emv/tlv_parsing/mod.rs enum TagClass
//@@ item src/emv/tlv_parsing/mod.rs enum DataObjectType
//@@ item src/emv/tlv_parsing/mod.rs enum EmvData
//@@ item src/emv/tlv_parsing/mod.rs struct RawEmvTag
//@@ item src/emv/tlv_parsing/mod.rs struct RawEmvNode
//@@ item src/emv/tlv_parsing/mod.rs struct RawEmvBlock
impl Copy for TagClass {}
impl Clone for TagClass { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for DataObjectType {}
impl Clone for DataObjectType { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
//@@ item src/error.rs enum ParseError /r#type/ => kind

pub ghost enum SData { Normal(Seq<u8>), Masked }
pub ghost struct SNode { pub tag: Seq<u8>, pub class: TagClass, pub dot: DataObjectType, pub data: SData, pub kids: Seq<SNode> }

pub open spec fn vdata(d: EmvData) -> SData { match d { EmvData::Normal(v) => SData::Normal(v@), EmvData::Masked => SData::Masked } }
pub open spec fn vnode(n: RawEmvNode) -> SNode
  decreases n
{
  SNode { tag: n.tag.tag@, class: n.tag.class, dot: n.tag.data_object_type, data: vdata(n.tag.data),
    kids: vnodes(n.child_block.nodes@) }
}
pub open spec fn vnodes(s: Seq<RawEmvNode>) -> Seq<SNode>
  decreases s
{
  Seq::new(s.len(), |i: int| if 0 <= i < s.len() { vnode(s[i]) } else { arbitrary() })
}
// `nodes.into()`: the conversion is the constructor
impl FromSpecImpl<Vec<RawEmvNode>> for RawEmvBlock {
	open spec fn obeys_from_spec() -> bool { true }
	open spec fn from_spec(nodes: Vec<RawEmvNode>) -> Self { RawEmvBlock { nodes } }
}
impl From<Vec<RawEmvNode>> for RawEmvBlock {
//@@ fn src/emv/tlv_parsing/mod.rs `impl From<Vec<RawEmvNode>> for RawEmvBlock` from
//@@ end
}
impl Default for RawEmvBlock {
//@@ fn src/emv/tlv_parsing/mod.rs `impl Default for RawEmvBlock` default
//@ spec
ensures r.nodes@ == Seq::<RawEmvNode>::empty()
//@@ end
}
pub assume_specification<T: std::clone::Clone> [<[T]>::to_vec] (s: &[T]) -> (r: std::vec::Vec<T>)
  ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < s@.len() ==> cloned::<T>(s@[i], r@[i]), to_vec_of(s@, r@);
pub assume_specification<T: std::default::Default, E> [Result::<T, E>::unwrap_or_default] (s: Result<T, E>) -> (r: T)
  ensures s is Ok ==> r == s->Ok_0, s is Err ==> call_ensures(T::default, (), r);

// ---------------------------------------------------------------- masking
pub open spec fn masked(d: Seq<u8>, m: Seq<char>) -> bool {
  d.len() >= 2 && exists|k: int| 0 <= k < m.len() && all_eq(d, #[trigger] m[k])
}
pub open spec fn all_eq(d: Seq<u8>, c: char) -> bool { forall|j: int| 0 <= j < d.len() ==> #[trigger] d[j] as char == c }
pub open spec fn sdata(d: Seq<u8>, m: Seq<char>) -> SData { if masked(d, m) { SData::Masked } else { SData::Normal(d) } }

// ---------------------------------------------------------------- BER-TLV
pub enum PErr { NonCompliant, Unsupported }
pub open spec fn err(e: PErr) -> ParseError { match e { PErr::NonCompliant => ParseError::NonCompliant, PErr::Unsupported => ParseError::Unsupported } }
/// how many subsequent identifier bytes start at i; -1 if the data ends within them
pub open spec fn tag_len(b: Seq<u8>, i: int) -> int
  decreases b.len() - i
{
  if i < 0 || i >= b.len() { -1 } else if b[i] & 0x80 > 0 { let r = tag_len(b, i+1); if r < 0 { -1 } else { r + 1 } } else { 1 }
}
//@@include be.rs
/// identifier bytes, length bytes, value bytes
pub struct Hdr { pub t: int, pub l: int, pub n: int }
pub open spec fn hdr(b: Seq<u8>, i: int) -> Result<Hdr, PErr> {
  let t = if b[i] & 0x1F == 0x1F { let r = tag_len(b, i+1); if r < 0 { -1 } else { r + 1 } } else { 1 };
  if t < 0 || i + t >= b.len() { Err(PErr::NonCompliant) } else {
    let p = i + t;
    if b[p] & 0x80 == 0 { let n = b[p] as int; if p + 1 + n > b.len() { Err(PErr::NonCompliant) } else { Ok(Hdr { t, l: 1, n }) } }
    else { let k = (b[p] & 0x7F) as int;
      if k > 4 { Err(PErr::Unsupported) }
      else if p + 1 + k > b.len() { Err(PErr::NonCompliant) }
      else { let n = be(b.subrange(p+1, p+1+k)) as int;
        if p + 1 + k + n > b.len() { Err(PErr::NonCompliant) } else { Ok(Hdr { t, l: 1+k, n }) } } }
  }
}
//@@include tagspec.rs
pub open spec fn kids(dot: DataObjectType, d: SData, m: Seq<char>, depth: int) -> Seq<SNode>
  decreases 250 - depth, 0int, 1int
{
  if dot is Constructed && d is Normal && depth < 250 {
    match ber(d->Normal_0, 0, m, depth + 1) { Ok(s) => s, Err(_) => Seq::empty() }
  } else { Seq::empty() }
}
/// the objects encoded by b from i on
pub open spec fn ber(b: Seq<u8>, i: int, m: Seq<char>, depth: int) -> Result<Seq<SNode>, PErr>
  decreases 250 - depth, b.len() - i, 2int
{
  if i < 0 || i >= b.len() { Ok(Seq::empty()) } else {
    match hdr(b, i) {
      Err(e) => Err(e),
      Ok(h) => {
        let s = i + h.t + h.l;
        if h.t + h.l + h.n <= 0 { arbitrary() } else {
        let d = sdata(b.subrange(s, s + h.n), m);
        let node = SNode { tag: b.subrange(i, i + h.t), class: class_of(b[i]), dot: dot_of(b[i]), data: d, kids: kids(dot_of(b[i]), d, m, depth) };
        match ber(b, s + h.n, m, depth) { Err(e) => Err(e), Ok(rest) => Ok(seq![node] + rest) } }
      }
    }
  }
}
pub open spec fn post(r: Result<RawEmvBlock, ParseError>, s: Result<Seq<SNode>, PErr>) -> bool {
  match r { Ok(b) => s is Ok && vnodes(b.nodes@) == s->Ok_0, Err(e) => s is Err && e == err(s->Err_0) }
}
