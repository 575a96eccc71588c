// ---------------------------------------------------------------- annotated trees
// `Box<dyn DisplayBreakdown>`: a decoded value, opaque here
#[verifier::external_body]
pub struct Shown { p: core::marker::PhantomData<u8> }
//@@ item src/emv/tlv_parsing/mod.rs struct ProcessedEmvBlock
//@@ item src/emv/tlv_parsing/mod.rs struct ProcessedEmvNode
//@@ item src/emv/tlv_parsing/mod.rs enum ProcessedEmvTag /Box < dyn DisplayBreakdown >/ => Shown
pub ghost enum SWhat { Unknown, Named(Seq<char>), Parsed(Seq<char>, Shown) }
pub open spec fn raw_of(t: ProcessedEmvTag) -> RawEmvTag { match t { ProcessedEmvTag::Raw { raw_tag } => raw_tag, ProcessedEmvTag::Annotated { raw_tag, .. } => raw_tag, ProcessedEmvTag::Parsed { raw_tag, .. } => raw_tag } }
pub open spec fn what_of(t: ProcessedEmvTag) -> SWhat { match t { ProcessedEmvTag::Raw { .. } => SWhat::Unknown, ProcessedEmvTag::Annotated { name, .. } => SWhat::Named(name@), ProcessedEmvTag::Parsed { name, parsed, .. } => SWhat::Parsed(name@, parsed) } }
pub ghost struct PNode { pub raw: RawEmvTag, pub what: SWhat, pub kids: Seq<PNode> }
pub open spec fn vpnode(n: ProcessedEmvNode) -> PNode decreases n { PNode { raw: raw_of(n.tag), what: what_of(n.tag), kids: vpnodes(n.child_block.nodes@) } }
pub open spec fn vpnodes(s: Seq<ProcessedEmvNode>) -> Seq<PNode> decreases s { Seq::new(s.len(), |i: int| if 0 <= i < s.len() { vpnode(s[i]) } else { arbitrary() }) }
/// the tree reaches no deeper than h levels
pub open spec fn within(s: Seq<ProcessedEmvNode>, h: int) -> bool decreases s { s.len() == 0 || h > 0 && forall|i: int| 0 <= i < s.len() ==> within((#[trigger] s[i]).child_block.nodes@, h - 1) }
