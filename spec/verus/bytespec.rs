// ---------------------------------------------------------------- hexadecimal dumps
/// digits of the bytes, one after the other
pub open spec fn small(s: Seq<Ev>, b: Seq<u8>) -> Seq<Ev> decreases b.len() { if b.len() == 0 { s } else { small(s, b.drop_last()) + tx(hex2(b.last())) } }
/// two digits per byte, a space between bytes
pub open spec fn spaced(s: Seq<Ev>, b: Seq<u8>) -> Seq<Ev> decreases b.len() {
  if b.len() == 0 { s } else if b.len() == 1 { s + tx(hex2(b[0])) } else { spaced(s, b.drop_last()) + tx(" "@) + tx(hex2(b.last())) }
}
pub open spec fn printable(b: u8) -> char { if 0x20 <= b <= 0x7E { b as char } else { '.' } }
pub open spec fn readout(s: Seq<Ev>, b: Seq<u8>) -> Seq<Ev> decreases b.len() { if b.len() == 0 { s } else { readout(s, b.drop_last()) + tx(seq![printable(b.last())]) } }
/// three blanks per missing column
pub open spec fn filler(s: Seq<Ev>, n: int) -> Seq<Ev> decreases n { if n <= 0 { s } else { filler(s, n - 1) + tx("   "@) } }
/// one line of w byte columns
pub open spec fn line_of(s: Seq<Ev>, b: Seq<u8>, w: int, ind: int, pretty: bool) -> Seq<Ev> {
  let h = spaced(s + tabs(ind), b);
  if pretty { readout(filler(h, w - b.len()) + tx("  "@), b) + tx("\n"@) } else { h + tx("\n"@) }
}
pub open spec fn width(n: int, w: int) -> int { if n < w { n } else { w } }
/// b in pieces of w bytes, the last one possibly shorter
pub open spec fn chunked(b: Seq<u8>, w: int) -> Seq<Seq<u8>> decreases b.len() {
  if b.len() == 0 || w <= 0 { Seq::empty() } else { seq![b.take(width(b.len() as int, w))] + chunked(b.skip(width(b.len() as int, w)), w) }
}
pub open spec fn lines(s: Seq<Ev>, c: Seq<Seq<u8>>, k: int, w: int, ind: int, pretty: bool) -> Seq<Ev> decreases k { if k <= 0 { s } else { line_of(lines(s, c, k - 1, w, ind, pretty), c[k - 1], w, ind, pretty) } }
pub open spec fn dump(s: Seq<Ev>, b: Seq<u8>, w: int, ind: int, pretty: bool) -> Seq<Ev> { let c = chunked(b, w); lines(s, c, c.len() as int, w, ind, pretty) }
