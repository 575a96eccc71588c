pub open spec fn class_of(b: u8) -> TagClass {
  if b & 0xC0 == 0 { TagClass::Universal } else if b & 0xC0 == 0x40 { TagClass::Application } else if b & 0xC0 == 0x80 { TagClass::ContextSpecific } else { TagClass::Private }
}
pub open spec fn dot_of(b: u8) -> DataObjectType { if b & 0x20 > 0 { DataObjectType::Constructed } else { DataObjectType::Primitive } }
