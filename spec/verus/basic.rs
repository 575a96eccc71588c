//@@ item src/emv/tlv_parsing/mod.rs enum DataObjectType
impl Copy for DataObjectType {}
impl Clone for DataObjectType { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl VxShow for DataObjectType { open spec fn shown(&self) -> Seq<char> { match *self { DataObjectType::Primitive => "Primitive"@, DataObjectType::Constructed => "Constructed"@ } } }
impl DataObjectType {
//@@ fn src/emv/tlv_parsing/mod.rs `impl Display for DataObjectType` fmt
//@ key DataObjectType.fmt
//@ prints write=f
//@ lower sig /Formatter<'_>/ => VxText
//@ lower sig /FormatResult/ => Result<(), VxFmtError>
//@ spec
ensures final(f)@ == old(f)@ + self.shown(), r is Ok
//@@ end
}
//@@include tagspec.rs
/// the class by its number
pub proof fn by_number(b: u8) ensures b / 64 < 4, TagClass_of((b / 64) as u8) == Some(class_of(b)), b & 0x20 > 0 <==> 0b0010_0000u8 & b > 0, (0b1100_0000u8 & b) >> 6 == b / 64
{ assert(b & 0xC0 == b / 64 * 64 && b / 64 < 4 && (b & 0x20 > 0 <==> 0b0010_0000u8 & b > 0) && (0b1100_0000u8 & b) >> 6 == b / 64) by (bit_vector); }
//@@ fn src/emv/tlv_parsing/ber_tlv.rs parse_tag_metadata
//@ params tag_byte_0
//@ calls try_into=TagClass::try_from
//@ begin
	proof { by_number(tag_byte_0); assert((0b1100_0000u8 & tag_byte_0) >> 6 == tag_byte_0 / 64 && tag_byte_0 / 64 < 4 && (0b0010_0000u8 & tag_byte_0 > 0 <==> tag_byte_0 / 32 % 2 == 1)) by (bit_vector); assert((0b1100_0000u8 & tag_byte_0) == (tag_byte_0 & 0b1100_0000u8) && (0b0010_0000u8 & tag_byte_0) == (tag_byte_0 & 0b0010_0000u8)) by (bit_vector); }
//@ spec
ensures r == (class_of(tag_byte_0), dot_of(tag_byte_0))
//@@ end
// ---------------------------------------------------------------- identify
//@@ gen tag_names
//@@ contract process identify_tag
//@@ item src/emv/tag_basic_info.rs struct TagBasicInfo
//@@ item src/emv/tag_basic_info.rs const MIN_BYTES
pub open spec fn info_is(b: Seq<u8>, v: TagBasicInfo) -> bool { b.len() > 0 && v.tag@ == b && (match tag_name(b) { Some(n) => v.name is Some && v.name->Some_0@ == n, None => v.name is None }) && v.class == class_of(b[0]) && v.data_object_type == dot_of(b[0]) }
// std: <[u8]>::to_vec
#[verifier::external_body] pub fn vx_to_vec(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { b.to_vec() }
impl TagBasicInfo {
//@@ fn src/emv/tag_basic_info.rs `impl TryFrom<&[u8]> for TagBasicInfo` try_from
//@ key TagBasicInfo.try_from
//@ params tag
//@ lower? sig /Self::Error/ => ParseError
//@ lower? body /r#type/ => kind
//@ calls to_vec=vx_to_vec
//@ spec
ensures tag@.len() == 0 ==> r == Err::<TagBasicInfo, ParseError>(ParseError::ByteCountIncorrect { kind: Ordering::Greater, expected: 1, found: 0 }), tag@.len() > 0 ==> r is Ok && info_is(tag@, r->Ok_0)
//@@ end
//@@ fn src/emv/tag_basic_info.rs `impl DisplayBreakdown for TagBasicInfo` display_breakdown
//@ key TagBasicInfo.display_breakdown
//@ prints print=stdout
//@ spec
ensures final(stdout)@ == info_report(old(stdout)@, *self, indentation as int)
//@@ end
}
pub open spec fn info_report(s: Seq<Ev>, v: TagBasicInfo, ind: int) -> Seq<Ev> {
  let s = head(s + tabs(ind), "Name:"@) + tx("             "@) + tx(if v.name is Some { v.name->Some_0@ } else { "<Unknown>"@ }) + tx("\n"@);
  let s = head(s + tabs(ind), "Tag:"@) + tx("              0x"@) + seq![Ev::Set(bold())];
  let s = small(s, v.tag@) + seq![Ev::Reset] + tx("\n"@);
  let s = head(s + tabs(ind), "Class:"@) + tx("            "@) + tx(v.class.shown()) + tx("\n"@);
  head(s + tabs(ind), "Data Object Type:"@) + tx(" "@) + tx(v.data_object_type.shown()) + tx("\n"@)
}
