//@@include decspec.rs
// std::fmt: the Display text of a value
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl<'a, T: VxShow + ?Sized> VxShow for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } }
impl VxShow for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxShow for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxShow for u16 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxShow for u8 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
