use vstd::string::*;
use vstd::utf8::*;
//@@include hexspec.rs
//@@include tree.rs
//@@include ingspec.rs
//@@ contract ber get_child_block
//@@ contract basic parse_tag_metadata
//@@ contract numbers byte_slice_to_u32
//@@ contract mask is_masked_str
//@@ contract hex parse_hex_str_strict
//@@ contract hex trim_leading_0_bytes
// std: str::chars().collect(), str::find and slicing, for ASCII text
#[verifier::external_body]
pub fn vx_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@, r@.len() <= 0x1FFF_FFFF_FFFF_FFFF { s.chars().collect::<Vec<_>>() }
#[verifier::external_body]
pub fn vx_find(s: &str, i: usize, c: char) -> (r: Option<usize>)
  requires is_ascii_chars(s@), i <= s@.len()
  ensures r is Some ==> i + r->Some_0 < s@.len() && find(s@, c, i as int) == i + r->Some_0, r is None ==> find(s@, c, i as int) == -1
{ s[i..].find(c) }
#[verifier::external_body]
pub fn vx_sub(s: &str, i: usize, j: usize) -> (r: &str) requires is_ascii_chars(s@), i <= j <= s@.len() ensures r@ == s@.subrange(i as int, j as int) { &s[i..j] }
//@@ item src/util.rs const BYTES_PER_32_BITS
//@@ item src/emv/tlv_parsing/ingenico_tlv.rs const TAG_FIELD_SEPARATOR
//@@ item src/emv/tlv_parsing/ingenico_tlv.rs const DATA_FORMAT_ASCII
//@@ item src/emv/tlv_parsing/ingenico_tlv.rs const DATA_FORMAT_HEX
//@@ item src/emv/tlv_parsing/ingenico_tlv.rs const TAG_TYPE_EMV

//@@ fn src/emv/tlv_parsing/ingenico_tlv.rs parse
//@ attr #[verifier::loop_isolation(false)]
//@ params data masking_characters
//@ locals data_chars data_len nodes index tag_type colon_index tag_id_str tag_id_bytes class data_object_type colon_index length_str length_bytes length data_format tag_data tag_data_str char_length tag_data_str
//@ loops while
//@ lower body /data\.chars\(\)\.collect::<Vec<_>>\(\)/ => vx_chars(data)
//@ lower body /&data\[(\w+)\.\.\]\.find\((\w+)\)/ => vx_find(data, \1, \2)
//@ lower body /&data\[(\w+)\.\.([^\]]+)\]/ => vx_sub(data, \1, \2)
//@ lower body /\.map_err\(\|_\| (ParseError::\w+)\)/ => .map_err(|_e: ParseError| -> (e: ParseError) ensures e == \1 { \1 })
//@ begin
	hide(hex_bytes_of); hide(is_hex); hide(find); hide(masked_str); hide(trimmed); hide(be); hide(ing); hide(encode_utf8); hide(is_ascii_chars); hide(vnodes); hide(vnode); hide(kids); hide(class_of); hide(dot_of);
	proof { assert(ing(data@, 0, masking_characters@) == joined(Seq::empty(), ing(data@, 0, masking_characters@))) by { let r = ing(data@, 0, masking_characters@); if r is Ok { assert(Seq::empty() + r->Ok_0 =~= r->Ok_0); } } assert(data@.len() == 0 ==> ing(data@, 0, masking_characters@) == Ok::<Seq<SNode>, PErr>(Seq::empty())) by { reveal(ing); } assert(vnodes(Seq::empty()) == Seq::<SNode>::empty()) by { reveal(vnodes); assert(vnodes(Seq::empty()) =~= Seq::<SNode>::empty()); } }
	broadcast use {hex_len, sub_len, find_end};
//@ spec
ensures post(r, ingenico(data@, masking_characters@))
//@ loop 0
	  invariant index <= data_len + 1, data_len == data@.len(), data_chars@ == data@, is_ascii_chars(data@), data_len <= 0x1FFF_FFFF_FFFF_FFFF,
	    ing(data@, 0, masking_characters@) == joined(vnodes(nodes@), ing(data@, index as int, masking_characters@)),
	    index >= data_len ==> ing(data@, 0, masking_characters@) == Ok::<Seq<SNode>, PErr>(vnodes(nodes@)),
	  decreases data_len + 1 - index
//@ loop 0 begin
		let ghost i0 = index as int; let ghost nodes0 = nodes@;
		proof { ing_step(data@, i0, masking_characters@, vnodes(nodes0)); }
//@ loop 0 end
	    proof { if nodes@.len() == nodes0.len() + 1 { vnodes_push(nodes0, nodes@.last()); vnode_is(nodes@.last()); if nodes@ =~= nodes0.push(nodes@.last()) {} } }
//@@ end
}
fn main() {}
