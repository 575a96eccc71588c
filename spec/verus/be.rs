/// the big-endian number of bytes
pub open spec fn be(b: Seq<u8>) -> nat decreases b.len() { if b.len() == 0 { 0 } else { 256 * be(b.drop_last()) + b.last() as nat } }
