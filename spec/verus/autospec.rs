pub ghost enum Detected { Ingenico(Seq<SNode>), Ber(Seq<SNode>), Nothing }
/// the first format that accepts the text
pub open spec fn detect(s: Seq<char>, m: Seq<char>) -> Detected {
  if s.len() == 0 { Detected::Nothing }
  else { match ingenico(s, m) { Ok(n) => Detected::Ingenico(n), Err(_) => match ber(hex_bytes_of(s), 0, m, 0) { Ok(n) => Detected::Ber(n), Err(_) => Detected::Nothing } } }
}
