// ---------------------------------------------------------------- standard output
// What is written to standard output, characters and colour changes in order:
// print! and the StandardStream handed around write to the same stream.
pub enum Color { Black, Blue, Green, Red, Cyan, Magenta, Yellow, White }
pub struct ColorSpec { pub fg: Option<Color>, pub bold: bool }
impl ColorSpec {
  pub fn new() -> (r: ColorSpec) ensures r == (ColorSpec { fg: None, bold: false }) { ColorSpec { fg: None, bold: false } }
  pub fn set_fg(&mut self, c: Option<Color>) -> (r: &mut ColorSpec) ensures r.fg == c, r.bold == old(self).bold, *final(self) == *final(r) { self.fg = c; self }
  pub fn set_bold(&mut self, b: bool) -> (r: &mut ColorSpec) ensures r.bold == b, r.fg == old(self).fg, *final(self) == *final(r) { self.bold = b; self }
}
pub ghost enum Ev { Ch(char), Set(ColorSpec), Reset }
#[verifier::external_body] pub struct StandardStream { p: core::marker::PhantomData<u8> }
impl View for StandardStream { type V = Seq<Ev>; uninterp spec fn view(&self) -> Seq<Ev>; }
impl StandardStream {
  #[verifier::external_body]
  pub fn set_color(&mut self, c: &ColorSpec) -> (r: Result<(), ()>) ensures final(self)@ == old(self)@ + seq![Ev::Set(*c)] { unimplemented!() }
  #[verifier::external_body]
  pub fn reset(&mut self) -> (r: Result<(), ()>) ensures final(self)@ == old(self)@ + seq![Ev::Reset] { unimplemented!() }
}
pub open spec fn tx(s: Seq<char>) -> Seq<Ev> { Seq::new(s.len(), |i: int| Ev::Ch(s[i])) }
pub open spec fn tabs(n: int) -> Seq<Ev> { Seq::new(n as nat, |i: int| Ev::Ch('\t')) }
//@@include show.rs
pub open spec fn nib(n: int) -> char { if n < 10 { (48 + n) as char } else { (55 + n) as char } }
pub open spec fn hex2(b: u8) -> Seq<char> { seq![nib(b as int / 16), nib(b as int % 16)] }
pub open spec fn pad(s: Seq<char>, w: int) -> Seq<char> { if s.len() < w { Seq::new((w - s.len()) as nat, |i: int| '0') + s } else { s } }
pub trait VxByte { spec fn byte(&self) -> u8; }
impl VxByte for u8 { open spec fn byte(&self) -> u8 { *self } }
impl<'a, T: VxByte> VxByte for &'a T { open spec fn byte(&self) -> u8 { (**self).byte() } }
#[verifier::external_body]
pub fn vx_put(out: &mut StandardStream, s: &str) ensures final(out)@ == old(out)@ + tx(s@) { unimplemented!() }
#[verifier::external_body]
pub fn vx_show<T: VxShow + ?Sized>(out: &mut StandardStream, v: &T) ensures final(out)@ == old(out)@ + tx(v.shown()) { unimplemented!() }
#[verifier::external_body]
pub fn vx_hex2<T: VxByte + ?Sized>(out: &mut StandardStream, v: &T) ensures final(out)@ == old(out)@ + tx(hex2(v.byte())) { unimplemented!() }
#[verifier::external_body]
pub fn vx_pad<T: VxShow + ?Sized>(out: &mut StandardStream, v: &T, w: usize) ensures final(out)@ == old(out)@ + tx(pad(v.shown(), w as int)) { unimplemented!() }
//@@ fn src/output_colours.rs bold_colour_spec
//@ spec
ensures r == bold()
//@@ end
//@@ fn src/output_colours.rs header_colour_spec
//@ spec
ensures r == header()
//@@ end
pub open spec fn bold() -> ColorSpec { ColorSpec { fg: None, bold: true } }
pub open spec fn header() -> ColorSpec { ColorSpec { fg: Some(Color::Cyan), bold: true } }
// Reports are functions from what has been written so far to what has then been
// written: each appends to `s`.
/// a line piece in the header colour, in bold
pub open spec fn head(s: Seq<Ev>, t: Seq<char>) -> Seq<Ev> { s + seq![Ev::Set(header())] + tx(t) + seq![Ev::Reset] }
pub open spec fn headln(s: Seq<Ev>, t: Seq<char>) -> Seq<Ev> { s + seq![Ev::Set(header())] + tx(t) + tx("\n"@) + seq![Ev::Reset] }
pub open spec fn strong(s: Seq<Ev>, t: Seq<char>) -> Seq<Ev> { s + seq![Ev::Set(bold())] + tx(t) + seq![Ev::Reset] }
//@@ fn src/util.rs print_indentation
//@ params indentation
//@ param stdout: &mut StandardStream
//@ prints print=stdout
//@ loops for
//@ iter 0 it
//@ spec
ensures final(stdout)@ == old(stdout)@ + tabs(indentation as int)
//@ loop 0
	invariant it.seq().len() == indentation, it.index() <= indentation, stdout@ == old(stdout)@ + tabs(it.index() as int),
//@ loop 0 end
	proof { reveal_strlit("\t"); assert(tabs(it.index() + 1) =~= tabs(it.index() as int) + tx("\t"@)); assert(stdout@ =~= old(stdout)@ + tabs(it.index() + 1)); }
//@ tail
	proof { assert(stdout@ =~= old(stdout)@ + tabs(indentation as int)); }
//@@ end
