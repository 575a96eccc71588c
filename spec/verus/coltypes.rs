//@@ item src/config/colour_choice.rs enum ColourChoice
impl core::fmt::Debug for ParseError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl Copy for ColourChoice {}
impl Clone for ColourChoice { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
//@@include colourspec.rs
