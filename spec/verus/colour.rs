// C21: colour choices, their names and their terminal settings.
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
//@@ item src/config/colour_choice.rs enum ColourChoice
impl Copy for ColourChoice {}
impl Clone for ColourChoice { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
//@@include colourspec.rs
#[verifier::external_body]
pub fn is_tty(s: Stream) -> (r: bool) ensures r == is_terminal(s) { unimplemented!() }
//@@ item src/error.rs enum ParseError /r#type/ => kind
// std: str::to_lowercase and equality of texts
pub axiom fn lower_ascii(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> 'a' <= #[trigger] s[i] <= 'z' ensures lower(s) == s;
#[verifier::external_body]
pub fn vx_lower(s: &str) -> (r: String) ensures r@ == lower(s@) { s.to_lowercase() }
#[verifier::external_body]
pub fn vx_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }

/// the names are distinct lower-case words
pub proof fn names(a: ColourChoice, b: ColourChoice) ensures name_of(a) == name_of(b) ==> a == b, lower(name_of(a)) == name_of(a)
{ reveal_strlit("always"); reveal_strlit("ansi"); reveal_strlit("auto"); reveal_strlit("never");
  assert(name_of(a).len() == name_of(b).len() && name_of(a)[0] == name_of(b)[0] && name_of(a)[1] == name_of(b)[1] ==> a == b);
  lower_ascii(name_of(a)); }

impl ColourChoice {
//@@ fn src/config/colour_choice.rs `impl Default for ColourChoice` default
//@ spec
ensures r is Auto
//@@ end
//@@ fn src/config/colour_choice.rs `impl From<TermColorChoice> for ColourChoice` from as from_setting
//@ params choice
//@ spec
ensures setting(r) == choice
//@@ end
//@@ fn src/config/colour_choice.rs `impl TryFrom<&str> for ColourChoice` try_from
//@ params value
//@ lower sig /Self::Error/ => ParseError
//@ lower body /match value\.to_lowercase\(\)\.as_str\(\) \{/ => let vx_l = vx_lower(value); match () {
//@ lower body /"(\w+)" => / => () if vx_eq(vx_l.as_str(), "\1") =>
//@ lower body /_ => / => () =>
//@ spec
ensures r is Ok ==> lower(value@) == name_of(r->Ok_0), r is Err ==> r->Err_0 is Unsupported && forall|c: ColourChoice| lower(value@) != #[trigger] name_of(c)
//@@ end
//@@ fn src/config/colour_choice.rs `impl ColourChoice` change_based_on_tty
//@ spec
ensures r == (if self is Auto && !is_terminal(Stream::Stdout) { ColourChoice::Never } else { self })
//@@ end
}
impl TermColorChoice {
//@@ fn src/config/colour_choice.rs `impl From<ColourChoice> for TermColorChoice` from as from_choice
//@ params choice
//@ spec
ensures r == setting(choice)
//@@ end
}
//@@ fn src/config/colour_choice.rs `impl From<ColourChoice> for &str` from as name
//@ params choice
//@ lower sig /Self/ => &'static str
//@ spec
ensures r@ == name_of(choice)
//@@ end
/// there and back, by setting and by name
fn round_trips(c: ColourChoice, t: TermColorChoice) {
  let a = ColourChoice::from_setting(TermColorChoice::from_choice(c));
  assert(a == c);
  let b = TermColorChoice::from_choice(ColourChoice::from_setting(t));
  assert(b == t);
  let n = ColourChoice::try_from(name(c));
  proof { if n is Ok { names(n->Ok_0, c); } names(c, c); }
  assert(n is Ok && n->Ok_0 == c);
}
}
fn main() {}
