use vstd::string::*;
use vstd::utf8::*;
//@@include hexspec.rs
//@@include tree.rs
//@@include ingspec.rs
//@@ item src/emv/tlv_parsing/mod.rs enum TlvFormat
//@@ contract ber parse as parse_ber_tlv
//@@ contract ingenico parse as parse_ingenico_tlv
//@@ contract hex parse_hex_str
// std: str::is_empty; a text has at most isize::MAX bytes
#[verifier::external_body]
pub fn vx_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }
pub axiom fn str_size(s: &str) ensures encode_utf8(s@).len() <= isize::MAX;

//@@include autospec.rs
//@@ fn src/emv/tlv_parsing/auto_tlv.rs parse
//@ params tlv_str masking_characters
//@ lower body /tlv_str\.is_empty\(\)/ => vx_is_empty(tlv_str)
//@ begin
	hide(ing); hide(ber);
	proof { str_size(tlv_str); hex_len(tlv_str@); }
//@ spec
ensures match r {
    Ok((TlvFormat::Ingenico, b)) => detect(tlv_str@, masking_characters@) == Detected::Ingenico(vnodes(b.nodes@)),
    Ok((TlvFormat::BerTlv, b)) => detect(tlv_str@, masking_characters@) == Detected::Ber(vnodes(b.nodes@)),
    Err(e) => detect(tlv_str@, masking_characters@) is Nothing && e is Unrecognised }
//@@ end
}
fn main() {}
