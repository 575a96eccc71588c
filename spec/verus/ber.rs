//@@include tree.rs
//@@ contract basic parse_tag_metadata
//@@ contract numbers byte_slice_to_u32
impl EmvData {
//@@ contract mask from_u8_check_for_masked
}
//@@ item src/util.rs const BYTES_PER_32_BITS
//@@ item src/emv/tlv_parsing/ber_tlv.rs const MAX_NESTING_DEPTH

//@@ fn src/emv/tlv_parsing/ber_tlv.rs parse
//@ params bytes masking_characters
//@ spec
requires bytes@.len() <= isize::MAX
ensures post(r, ber(bytes@, 0, masking_characters@, 0))
//@@ end

//@@ fn src/emv/tlv_parsing/ber_tlv.rs parse_at_depth
//@ attr #[verifier::loop_isolation(false)]
//@ params bytes masking_characters depth
//@ locals bytes_len nodes index tag_start_index tag_byte_0 class data_object_type tag_continues tag_end_index length_byte_0 length subsequent_length_byte_count start_index data tag_data
//@ loops while while
//@ spec
requires depth <= 250, bytes@.len() <= isize::MAX
ensures post(r, ber(bytes@, 0, masking_characters@, depth as int))
decreases 250 - depth, 1int
//@ loop 0
	  invariant index <= bytes@.len(), depth <= 250, bytes@.len() <= isize::MAX, bytes_len == bytes@.len(),
	    ber(bytes@, 0, masking_characters@, depth as int) == match ber(bytes@, index as int, masking_characters@, depth as int) { Err(e) => Err::<Seq<SNode>, PErr>(e), Ok(rest) => Ok(vnodes(nodes@) + rest) },
	  decreases bytes@.len() - index
//@ loop 0 begin
		let ghost i0 = index as int; let ghost nodes0 = nodes@;
//@ loop 1
		  invariant i0 <= index < bytes@.len(), bytes_len == bytes@.len(),
		     bytes@[i0] & 0x1F == 0x1F ==> (tag_len(bytes@, i0+1) == if tag_continues { let r = tag_len(bytes@, index+1); if r < 0 { -1 } else { index - i0 + r } } else { index - i0 }),
		     bytes@[i0] & 0x1F != 0x1F ==> !tag_continues && index == i0
		  decreases bytes@.len() - index
//@ loop 0 end
	    proof {
	      assert(vnodes(nodes@) =~= vnodes(nodes0) + seq![vnode(nodes@.last())]);
	      let rest = ber(bytes@, index as int, masking_characters@, depth as int);
	      if rest is Ok { assert(vnodes(nodes@) + rest->Ok_0 =~= vnodes(nodes0) + (seq![vnode(nodes@.last())] + rest->Ok_0)); }
	      let h = hdr(bytes@, i0)->Ok_0;
	      assert(nodes@.last().tag.tag@ =~= bytes@.subrange(i0, i0 + h.t));
	      assert(bytes@.subrange(i0 + h.t + h.l, i0 + h.t + h.l + h.n) =~= bytes@.subrange(index - h.n, index as int));
	    }
//@@ end

//@@ fn src/emv/tlv_parsing/ber_tlv.rs get_child_block
//@ params data_object_type tag_data masking_characters depth
//@ spec
requires depth <= 250, tag_data is Normal ==> tag_data->Normal_0@.len() <= isize::MAX
ensures vnodes(r.nodes@) == kids(data_object_type, vdata(*tag_data), masking_characters@, depth as int)
decreases 250 - depth, 0int
//@@ end
}
fn main() {}
