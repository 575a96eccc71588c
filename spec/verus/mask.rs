//@@include tree.rs
//@@ item src/emv/tlv_parsing/mod.rs const MASKING_CHAR_MINIMUM
//@@include maskspec.rs
// std: str::len is the number of bytes
#[verifier::external_body]
pub fn vx_str_len(s: &str) -> (r: usize) ensures r == utf8_len(s@) { s.len() }

//@@ fn src/emv/tlv_parsing/mod.rs is_masked_u8
//@ params data masking_characters
//@ loops for
//@ lower body /data\.iter\(\)\.all\(\|(\w+)\| (.*?)\)\s*\{/ => { let mut vx_it = data.iter(); let ghost vx_s = vx_it.remaining(); let vx_r = vx_it.all(|\1: &u8| -> (b: bool) ensures b == (*\1 as char == *masking_char) { \2 }); proof { assert forall|j: int| 0 <= j < data@.len() && vx_r implies #[trigger] data@[j] as char == *masking_char by { let x = vx_s[j]; assert(*x == data@[j]); } if !vx_r && all_eq(data@, *masking_char) { assert forall|j: int| 0 <= j < vx_s.len() implies *#[trigger] vx_s[j] as char == *masking_char by { assert(*vx_s[j] == data@[j]); } } } assert(vx_r == all_eq(data@, *masking_char)); vx_r } {
//@ spec
ensures r == masked(data@, masking_characters@)
//@ iter 0 vx_m
//@ loop 0
	invariant data@.len() >= 2, forall|k: int| 0 <= k < vx_m.index() ==> !all_eq(data@, #[trigger] masking_characters@[k]),
//@@ end

//@@ fn src/emv/tlv_parsing/mod.rs is_masked_str
//@ params data masking_characters
//@ loops for
//@ lower body /data\.len\(\)/ => vx_str_len(data)
//@ lower body /data\.chars\(\)\.all\(\|(\w+)\| (.*?)\)\s*\{/ => { let mut vx_it = data.chars(); let ghost vx_s = vx_it.remaining(); let vx_r = vx_it.all(|\1: char| -> (b: bool) ensures b == (\1 == *masking_char) { \2 }); assert(vx_r == all_eq_str(data@, *masking_char)); vx_r } {
//@ spec
ensures r == masked_str(data@, masking_characters@)
//@ iter 0 vx_m
//@ loop 0
	invariant utf8_len(data@) >= 2, forall|k: int| 0 <= k < vx_m.index() ==> !all_eq_str(data@, #[trigger] masking_characters@[k]),
//@@ end

impl EmvData {
//@@ fn src/emv/tlv_parsing/mod.rs `impl EmvData` from_u8_check_for_masked
//@ params data masking_characters
//@ spec
ensures vdata(r) == sdata(data@, masking_characters@)
//@@ end
}
}
fn main() {}
