// ---------------------------------------------------------------- text
// std::fmt: a String or Formatter being written to
#[verifier::external_body] pub struct VxText { p: core::marker::PhantomData<u8> }
pub struct VxFmtError;
impl View for VxText { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxText {
  #[verifier::external_body] pub fn new() -> (r: VxText) ensures r@ == Seq::<char>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn finish(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn write_str(&mut self, s: &str) -> (r: Result<(), VxFmtError>) ensures final(self)@ == old(self)@ + s@, r is Ok { unimplemented!() }
}
#[verifier::external_body] pub fn vxs_put(out: &mut VxText, s: &str) ensures final(out)@ == old(out)@ + s@ { unimplemented!() }
#[verifier::external_body] pub fn vxs_show<T: VxShow + ?Sized>(out: &mut VxText, v: &T) ensures final(out)@ == old(out)@ + v.shown() { unimplemented!() }
