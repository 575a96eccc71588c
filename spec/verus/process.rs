//@@include tree.rs
//@@include proctypes.rs
//@@include procspec.rs
// ---------------------------------------------------------------- annotation
// `X::try_from(data).map(|parsed| Box::new(parsed) as Box<dyn DisplayBreakdown>)`
#[verifier::external_body]
pub fn vx_decode(d: Decoder, data: &[u8]) -> (r: Result<Shown, ParseError>) ensures r == decoded(d, data@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_tag_and_name<'a>(name: Option<&'static str>, tag: &'a [u8]) -> (r: Option<(&'a [u8], &'static str)>)
  ensures r is Some <==> name is Some, r is Some ==> r->Some_0.1@ == name->Some_0@ && r->Some_0.0@ == tag@ { name.map(|name| (tag, name)) }

//@@ fn src/emv/tlv_parsing/process_emv_tag.rs identify_tag
//@ params tag
//@ lower body /\[(0x\w\w)\] => / => t if t.len() == 1 && t[0] == \1 =>
//@ lower body /\[(0x\w\w), (0x\w\w)\] => / => t if t.len() == 2 && t[0] == \1 && t[1] == \2 =>
//@ spec
ensures match tag_name(tag@) { Some(n) => r is Some && r->Some_0@ == n, None => r is None }
//@@ end

impl ProcessedEmvTag {
//@@ fn src/emv/tlv_parsing/mod.rs `impl ProcessedEmvTag` get_raw_tag
//@ lower body /ProcessedEmvTag::Raw \{ raw_tag \}\s*\| ProcessedEmvTag::Annotated \{ raw_tag, \.\. \}\s*\| ProcessedEmvTag::Parsed \{ raw_tag, \.\. \} => raw_tag,/ => ProcessedEmvTag::Raw { raw_tag } => raw_tag, ProcessedEmvTag::Annotated { raw_tag, .. } => raw_tag, ProcessedEmvTag::Parsed { raw_tag, .. } => raw_tag,
//@ spec
ensures *r == raw_of(*self)
//@@ end
//@@ fn src/emv/tlv_parsing/mod.rs `impl ProcessedEmvTag` annotate_raw
//@ params name raw_tag
//@ spec
ensures r == (ProcessedEmvTag::Annotated { name, raw_tag })
//@@ end
//@@ fn src/emv/tlv_parsing/mod.rs `impl ProcessedEmvTag` parse_raw
//@ params name raw_tag parsing_fn
//@ lower sig /Box<dyn DisplayBreakdown>/ => Shown
//@ lower body /parsing_fn\(data\)/ => parsing_fn(data.as_slice())
//@ spec
requires forall|d: &[u8]| call_requires(parsing_fn, (d,))
ensures raw_tag.data is Masked ==> r == Ok::<Self, ParseError>(ProcessedEmvTag::Annotated { name, raw_tag }),
  raw_tag.data is Normal ==> exists|d: &[u8], o: Result<Shown, ParseError>| d@ == raw_tag.data->Normal_0@ && #[trigger] call_ensures(parsing_fn, (d,), o)
    && r == (match o { Ok(parsed) => Ok(ProcessedEmvTag::Parsed { name, parsed, raw_tag }), Err(e) => Err(e) })
//@@ end
//@@ fn src/emv/tlv_parsing/mod.rs `impl ProcessedEmvTag` parse_raw_unrecognised
//@ params name_recognised name_unrecognised raw_tag parsing_fn is_unrecognised_error
//@ lower sig /Box<dyn DisplayBreakdown>/ => Shown
//@ spec
requires forall|d: &[u8]| call_requires(parsing_fn, (d,)), forall|e: &ParseError| call_requires(is_unrecognised_error, (e,))
ensures raw_tag.data is Masked ==> r == Ok::<Self, ParseError>(ProcessedEmvTag::Annotated { name: name_recognised, raw_tag }),
  raw_tag.data is Normal ==> exists|d: &[u8], o: Result<Shown, ParseError>| d@ == raw_tag.data->Normal_0@ && #[trigger] call_ensures(parsing_fn, (d,), o)
    && (match o { Ok(parsed) => r == Ok::<Self, ParseError>(ProcessedEmvTag::Parsed { name: name_recognised, parsed, raw_tag }),
      Err(e) => (call_ensures(is_unrecognised_error, (&e,), true) && r == Ok::<Self, ParseError>(ProcessedEmvTag::Annotated { name: name_unrecognised, raw_tag })) || (call_ensures(is_unrecognised_error, (&e,), false) && r == Err::<Self, ParseError>(e)) })
//@@ end
}
//@@ fn src/emv/tlv_parsing/process_emv_tag.rs process_emv_tag
//@ params raw_tag
//@ lower body /match identify_tag\(raw_tag\.tag\.as_slice\(\)\)\.map\(\|name\| \(raw_tag\.tag\.as_slice\(\), name\)\)/ => match vx_tag_and_name(identify_tag(raw_tag.tag.as_slice()), raw_tag.tag.as_slice())
//@ lower body /Some\(\(\[(0x\w\w)\], (\w+)\)\) =>/ => Some((t, \2)) if t.len() == 1 && t[0] == \1 =>
//@ lower body /Some\(\(\[(0x\w\w), (0x\w\w)\], (\w+)\)\) =>/ => Some((t, \3)) if t.len() == 2 && t[0] == \1 && t[1] == \2 =>
//@ lower body /\|data\| \{\s*(\w+)::try_from\(data\)\s*\.map\(\|parsed\| Box::new\(parsed\) as Box<dyn DisplayBreakdown>\)\s*\}/ => |data: &[u8]| -> (o: Result<Shown, ParseError>) ensures o == decoded(Decoder::\1, data@) { vx_decode(Decoder::\1, data) }
//@ lower body /\|error\| matches!\(error, ParseError::(\w+)\)/ => |error: &ParseError| -> (b: bool) ensures b == (*error is \1) { matches!(error, ParseError::\1) }
//@ spec
ensures tag_post(raw_tag, r)
//@@ end

// ---------------------------------------------------------------- trees
impl ProcessedEmvTag {
//@@ fn src/emv/tlv_parsing/mod.rs `impl TryFrom<RawEmvTag> for ProcessedEmvTag` try_from as tag_try_from
//@ params value
//@ lower sig /Self::Error/ => ParseError
//@ spec
ensures tag_post(value, r)
//@@ end
}
impl ProcessedEmvNode {
//@@ fn src/emv/tlv_parsing/mod.rs `impl TryFrom<RawEmvNode> for ProcessedEmvNode` try_from as node_try_from
//@ params raw_node
//@ lower sig /Self::Error/ => ParseError
//@ lower body /raw_node\.tag\.try_into\(\)/ => ProcessedEmvTag::tag_try_from(raw_node.tag)
//@ lower body /raw_node\.child_block\.try_into\(\)/ => ProcessedEmvBlock::block_try_from(raw_node.child_block)
//@ spec
ensures node_post(raw_node, r)
decreases raw_node, 0int
//@@ end
}
impl ProcessedEmvBlock {
//@@ fn src/emv/tlv_parsing/mod.rs `impl TryFrom<RawEmvBlock> for ProcessedEmvBlock` try_from as block_try_from
//@ params raw_block
//@ locals nodes raw_node
//@ loops for
//@ lower sig /Self::Error/ => ParseError
//@ lower body /raw_node\.try_into\(\)/ => ProcessedEmvNode::node_try_from(raw_node)
//@ begin
	proof { assert(vpnodes(Seq::empty()) =~= Seq::empty()); }
//@ spec
ensures block_post(raw_block, r)
decreases raw_block, 1int
//@ iter 0 vx_i
//@ loop 0
	invariant vx_i.seq() == raw_block.nodes@, pnodes(raw_block.nodes@, vx_i.index() as nat) == Ok::<Seq<PNode>, ParseError>(vpnodes(nodes@)),
//@ loop 0 begin
	let ghost i0 = vx_i.index(); let ghost nodes0 = nodes@;
	proof { assert(raw_node == raw_block.nodes@[i0]); if pnode(raw_node) is Err { pnodes_err(raw_block.nodes@, (i0 + 1) as nat, raw_block.nodes@.len()); } }
//@ loop 0 end
	proof { assert(nodes@ =~= nodes0.push(nodes@.last())); vpnodes_push(nodes0, nodes@.last()); }
//@@ end
}
}
fn main() {}
