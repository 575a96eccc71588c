// Colour choice conversions.
use super::{text, Args};
use crate::config::colour_choice::ColourChoice;
use termcolor::ColorChoice;
pub fn colour(a: Args) {
	match ColourChoice::try_from(text(&a[0])) {
		Ok(c) => {
			let s: &str = c.into();
			let t: ColorChoice = c.into();
			let b: ColourChoice = t.into();
			print!("{c:?} {s} {t:?} {b:?}");
		}
		Err(e) => print!("E{e:?}"),
	}
}
// the choice that is used for output (standard output is not a terminal here)
pub fn colourtty(a: Args) {
	print!("{:?}", ColourChoice::try_from(text(&a[0])).map(ColourChoice::change_based_on_tty));
}
pub fn colourdef(a: Args) {
	let _ = a;
	print!("{:?}", ColourChoice::default());
}
