pub open spec fn name_of(c: ColourChoice) -> Seq<char> { match c { ColourChoice::Always => "always"@, ColourChoice::AlwaysAnsi => "ansi"@, ColourChoice::Auto => "auto"@, ColourChoice::Never => "never"@ } }
// termcolor::ColorChoice (external crate): its four settings
pub enum TermColorChoice { Always, AlwaysAnsi, Auto, Never }
// atty::Stream and atty::is (external crate)
pub enum Stream { Stdout, Stderr, Stdin }
pub uninterp spec fn is_terminal(s: Stream) -> bool;
// std: str::to_lowercase
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub open spec fn setting(c: ColourChoice) -> TermColorChoice { match c { ColourChoice::Always => TermColorChoice::Always, ColourChoice::AlwaysAnsi => TermColorChoice::AlwaysAnsi, ColourChoice::Auto => TermColorChoice::Auto, ColourChoice::Never => TermColorChoice::Never } }
