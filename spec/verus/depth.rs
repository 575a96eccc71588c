use vstd::string::*;
use vstd::utf8::*;
//@@include hexspec.rs
//@@include tree.rs
//@@include ingspec.rs
//@@include proctypes.rs
//@@include procspec.rs
//@@include sortspec.rs
//@@include depthspec.rs
/// so the report of whatever was decoded, processed and sorted stays within its indentation
pub proof fn report_fits(bytes: Seq<u8>, text: Seq<char>, m: Seq<char>, raw: Seq<RawEmvNode>, p: Seq<ProcessedEmvNode>, q: Seq<ProcessedEmvNode>)
  requires ber(bytes, 0, m, 0) == Ok::<Seq<SNode>, PErr>(vnodes(raw)) || ingenico(text, m) == Ok::<Seq<SNode>, PErr>(vnodes(raw)), pnodes(raw, raw.len()) == Ok::<Seq<PNode>, ParseError>(vpnodes(p)), q == p || sorted_from(p, q)
  ensures within(q, 251)
{ ber_deep(bytes, 0, m, 0); ing_deep(text, 0, m); process_keeps(raw, p, 251); if q != p { sort_keeps(p, q, 251); } }
}
fn main() {}
