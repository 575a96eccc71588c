// ---------------------------------------------------------------- figment (external crate)
// A Figment is a list of sources, later ones first in precedence, and a profile.
pub ghost enum Val { Colour(ColourChoice), Chars(Seq<char>), Flag(bool) }
pub ghost struct FileView { pub path: Seq<char>, pub nested: bool }
pub ghost struct EnvView { pub prefix: Seq<char>, pub ignored: Set<Seq<char>>, pub global: bool }
pub ghost enum Layer { Defaults(Config), File(FileView), Env(EnvView), Set(Seq<char>, Val) }
pub ghost struct FigmentView { pub layers: Seq<Layer>, pub profile: Seq<char> }
/// what a file or the environment says about a key under a profile, if anything
pub uninterp spec fn in_file(f: FileView, profile: Seq<char>, k: Seq<char>) -> Option<Val>;
pub uninterp spec fn in_env(e: EnvView, profile: Seq<char>, k: Seq<char>) -> Option<Val>;
/// the value of an environment variable, or else the text given
pub uninterp spec fn env_or(n: Seq<char>, d: Seq<char>) -> Seq<char>;
/// serde writes each field under its own name
pub open spec fn in_config(c: Config, k: Seq<char>) -> Option<Val> {
  if k == "cli_colour"@ { Some(Val::Colour(c.cli_colour)) } else if k == "masking_characters"@ { Some(Val::Chars(c.masking_characters@)) }
  else if k == "sort_parsed_tags"@ { Some(Val::Flag(c.sort_parsed_tags)) } else { None }
}
pub open spec fn at(l: Layer, profile: Seq<char>, k: Seq<char>) -> Option<Val> {
  match l { Layer::Defaults(c) => in_config(c, k), Layer::File(f) => in_file(f, profile, k), Layer::Env(e) => in_env(e, profile, k), Layer::Set(n, v) => if n == k { Some(v) } else { None } }
}
pub open spec fn last_with(ls: Seq<Layer>, profile: Seq<char>, k: Seq<char>) -> Option<Val> decreases ls.len()
{ if ls.len() == 0 { None } else if at(ls.last(), profile, k) is Some { at(ls.last(), profile, k) } else { last_with(ls.drop_last(), profile, k) } }
pub open spec fn effective(f: FigmentView, k: Seq<char>) -> Option<Val> { last_with(f.layers, f.profile, k) }

pub open spec fn with_all(s: Set<Seq<char>>, ks: Seq<&str>) -> Set<Seq<char>> decreases ks.len() { if ks.len() == 0 { s } else { with_all(s, ks.drop_last()).insert(ks.last()@) } }
pub struct Profile { pub name: &'static str }
impl Profile {
  pub const fn const_new(name: &'static str) -> (r: Profile) ensures r.name == name { Profile { name } }
  #[verifier::external_body] pub fn from_env_or(n: &str, d: Profile) -> (r: VxProfile) ensures r@ == env_or(n@, d.name@) { unimplemented!() }
}
#[verifier::external_body] pub struct VxProfile { p: u8 }
impl View for VxProfile { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] pub struct Figment { p: u8 }
impl View for Figment { type V = FigmentView; uninterp spec fn view(&self) -> FigmentView; }
pub trait Provider { spec fn layer(&self) -> Layer; }
pub struct Serialized { pub c: Config }
impl Serialized { pub fn defaults(c: Config) -> (r: Serialized) ensures r.c == c { Serialized { c } } }
impl Provider for Serialized { open spec fn layer(&self) -> Layer { Layer::Defaults(self.c) } }
#[verifier::external_body] pub struct Toml { p: u8 }
impl View for Toml { type V = FileView; uninterp spec fn view(&self) -> FileView; }
impl Toml {
  #[verifier::external_body] pub fn file(s: String) -> (r: Toml) ensures r@ == (FileView { path: s@, nested: false }) { unimplemented!() }
  #[verifier::external_body] pub fn nested(self) -> (r: Toml) ensures r@ == (FileView { nested: true, ..self@ }) { unimplemented!() }
}
impl Provider for Toml { open spec fn layer(&self) -> Layer { Layer::File(self@) } }
#[verifier::external_body] pub struct Env { p: u8 }
impl View for Env { type V = EnvView; uninterp spec fn view(&self) -> EnvView; }
impl Env {
  #[verifier::external_body] pub fn var_or(n: &str, d: &str) -> (r: String) ensures r@ == env_or(n@, d@) { unimplemented!() }
  #[verifier::external_body] pub fn prefixed(s: &str) -> (r: Env) ensures r@ == (EnvView { prefix: s@, ignored: Set::empty(), global: false }) { unimplemented!() }
  #[verifier::external_body] pub fn ignore(self, ks: &[&str]) -> (r: Env) ensures r@ == (EnvView { ignored: with_all(self@.ignored, ks@), ..self@ }) { unimplemented!() }
  #[verifier::external_body] pub fn global(self) -> (r: Env) ensures r@ == (EnvView { global: true, ..self@ }) { unimplemented!() }
}
impl Provider for Env { open spec fn layer(&self) -> Layer { Layer::Env(self@) } }
pub trait VxVal { spec fn val(&self) -> Val; }
impl VxVal for ColourChoice { open spec fn val(&self) -> Val { Val::Colour(*self) } }
impl VxVal for Vec<char> { open spec fn val(&self) -> Val { Val::Chars(self@) } }
impl VxVal for bool { open spec fn val(&self) -> Val { Val::Flag(*self) } }
impl<'a, V: VxVal> Provider for (&'a str, V) { open spec fn layer(&self) -> Layer { Layer::Set(self.0@, self.1.val()) } }
impl Figment {
  #[verifier::external_body] pub fn from<P: Provider>(p: P) -> (r: Figment) ensures r@.layers == seq![p.layer()], r@.profile == "default"@ { unimplemented!() }
  #[verifier::external_body] pub fn merge<P: Provider>(self, p: P) -> (r: Figment) ensures r@.layers == self@.layers.push(p.layer()), r@.profile == self@.profile { unimplemented!() }
  #[verifier::external_body] pub fn select(self, p: VxProfile) -> (r: Figment) ensures r@.layers == self@.layers, r@.profile == p@ { unimplemented!() }
}
// ---------------------------------------------------------------- clap (external crate)
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
pub enum ValueSource { DefaultValue, EnvVariable, CommandLine }
#[verifier::external_body] pub struct ArgMatches { p: u8 }
/// the value of an option, and where it comes from
pub uninterp spec fn arg<T>(m: ArgMatches, id: Seq<char>) -> Option<T>;
pub uninterp spec fn args(m: ArgMatches, id: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn source(m: ArgMatches, id: Seq<char>) -> Option<ValueSource>;
#[verifier::external_body] pub struct VxValues { p: u8 }
impl View for VxValues { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl VxValues {
  #[verifier::external_body] pub fn copied(self) -> (r: VxValues) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn collect<B>(self) -> (r: Vec<char>) ensures r@ == self@ { unimplemented!() }
}
impl ArgMatches {
  #[verifier::external_body] pub fn get_one<T>(&self, id: &str) -> (r: Option<&T>) ensures (r is Some) == (arg::<T>(*self, id@) is Some), r is Some ==> *r->Some_0 == arg::<T>(*self, id@)->Some_0 { unimplemented!() }
  #[verifier::external_body] pub fn get_many<T>(&self, id: &str) -> (r: Option<VxValues>) ensures (r is Some) == (args(*self, id@) is Some), r is Some ==> r->Some_0@ == args(*self, id@)->Some_0 { unimplemented!() }
  #[verifier::external_body] pub fn value_source(&self, id: &str) -> (r: Option<ValueSource>) ensures r == source(*self, id@) { unimplemented!() }
}
pub open spec fn given(m: ArgMatches, id: Seq<char>) -> bool { source(m, id) is Some && source(m, id)->Some_0 != ValueSource::DefaultValue }
/// what clap accepts under the declarations of build_cli: a value has a source,
/// colour is one of its names, the two sort options exclude each other
pub open spec fn accepted(m: ArgMatches) -> bool {
  &&& arg::<String>(m, "colour"@) is Some ==> source(m, "colour"@) is Some && exists|c: ColourChoice| lower(arg::<String>(m, "colour"@)->Some_0@) == #[trigger] name_of(c)
  &&& args(m, "masking-character"@) is Some ==> source(m, "masking-character"@) is Some
  &&& arg::<bool>(m, "sort-parsed-tags"@) is Some ==> source(m, "sort-parsed-tags"@) is Some
  &&& arg::<bool>(m, "no-sort-parsed-tags"@) is Some ==> source(m, "no-sort-parsed-tags"@) is Some
  &&& !(given(m, "sort-parsed-tags"@) && given(m, "no-sort-parsed-tags"@))
  &&& given(m, "colour"@) ==> arg::<String>(m, "colour"@) is Some
  &&& given(m, "masking-character"@) ==> args(m, "masking-character"@) is Some
  &&& given(m, "sort-parsed-tags"@) ==> arg::<bool>(m, "sort-parsed-tags"@) is Some
  &&& given(m, "no-sort-parsed-tags"@) ==> arg::<bool>(m, "no-sort-parsed-tags"@) is Some
}
pub open spec fn colour_named(t: Seq<char>) -> ColourChoice { choose|c: ColourChoice| t == name_of(c) }
/// the value of a setting on the command line, if it is given there
pub open spec fn on_command_line(m: ArgMatches, k: Seq<char>) -> Option<Val> {
  if k == "cli_colour"@ { if given(m, "colour"@) { Some(Val::Colour(colour_named(lower(arg::<String>(m, "colour"@)->Some_0@)))) } else { None } }
  else if k == "masking_characters"@ { if given(m, "masking-character"@) { Some(Val::Chars(args(m, "masking-character"@)->Some_0)) } else { None } }
  else if k == "sort_parsed_tags"@ {
    if given(m, "sort-parsed-tags"@) { Some(Val::Flag(arg::<bool>(m, "sort-parsed-tags"@)->Some_0)) }
    else if given(m, "no-sort-parsed-tags"@) { Some(Val::Flag(!arg::<bool>(m, "no-sort-parsed-tags"@)->Some_0)) } else { None } }
  else { None }
}
// ---------------------------------------------------------------- the settings
//@@ item src/config/mod.rs const FILE_NAME
//@@ item src/config/mod.rs const ENV_PREFIX
//@@ item src/config/mod.rs const ENV_FILE_NAME_OVERRIDE
//@@ item src/config/mod.rs const ENV_PROFILE
//@@ item src/config/mod.rs struct Config
impl Config {
//@@ item src/config/mod.rs const CLI_COLOUR
//@@ item src/config/mod.rs const MASKING_CHARACTERS
//@@ item src/config/mod.rs const SORT_PARSED_TAGS
//@@ item src/config/mod.rs const DEFAULT_PROFILE /= Profile :: const_new \( (.*) \) ;/ => = Profile { name: \1 } ;
}
pub open spec fn default_of(k: Seq<char>) -> Option<Val> {
  if k == "cli_colour"@ { Some(Val::Colour(ColourChoice::Auto)) } else if k == "masking_characters"@ { Some(Val::Chars(seq!['*'])) }
  else if k == "sort_parsed_tags"@ { Some(Val::Flag(true)) } else { None }
}
pub open spec fn is_default(c: Config) -> bool { c.cli_colour is Auto && c.masking_characters@ =~= seq!['*'] && c.sort_parsed_tags }
pub open spec fn the_file() -> FileView { FileView { path: env_or("PEMV_CONFIG"@, "pemv.toml"@), nested: true } }
pub open spec fn the_env() -> EnvView { EnvView { prefix: "PEMV_"@, ignored: set!["CONFIG"@, "PROFILE"@], global: true } }
/// the documented sources, in ascending precedence
pub open spec fn sources(f: FigmentView) -> bool {
  &&& f.layers.len() == 3 && f.layers[0] is Defaults && is_default(f.layers[0]->Defaults_0) && f.layers[1] == Layer::File(the_file()) && f.layers[2] == Layer::Env(the_env())
  &&& f.profile == env_or("PEMV_PROFILE"@, "default"@)
}
pub open spec fn chosen(m: ArgMatches, profile: Seq<char>, k: Seq<char>) -> Option<Val> {
  if on_command_line(m, k) is Some { on_command_line(m, k) } else if in_env(the_env(), profile, k) is Some { in_env(the_env(), profile, k) }
  else if in_file(the_file(), profile, k) is Some { in_file(the_file(), profile, k) } else { default_of(k) }
}
pub proof fn names_apart() ensures "cli_colour"@ != "masking_characters"@, "cli_colour"@ != "sort_parsed_tags"@, "masking_characters"@ != "sort_parsed_tags"@,
  forall|a: ColourChoice, b: ColourChoice| name_of(a) == name_of(b) ==> a == b,
  forall|ls: Seq<Layer>, l: Layer, p: Seq<char>, k: Seq<char>| #[trigger] last_with(ls.push(l), p, k) == (if at(l, p, k) is Some { at(l, p, k) } else { last_with(ls, p, k) })
{ reveal_strlit("cli_colour"); reveal_strlit("masking_characters"); reveal_strlit("sort_parsed_tags");
  assert("cli_colour"@[0] != "masking_characters"@[0] && "cli_colour"@[0] != "sort_parsed_tags"@[0] && "masking_characters"@[0] != "sort_parsed_tags"@[0]);
  reveal_strlit("always"); reveal_strlit("ansi"); reveal_strlit("auto"); reveal_strlit("never");
  assert forall|a: ColourChoice, b: ColourChoice| name_of(a) == name_of(b) implies a == b by { assert(name_of(a).len() == name_of(b).len() && name_of(a)[0] == name_of(b)[0] && name_of(a)[1] == name_of(b)[1] ==> a == b); }
  assert forall|ls: Seq<Layer>, l: Layer, p: Seq<char>, k: Seq<char>| #[trigger] last_with(ls.push(l), p, k) == (if at(l, p, k) is Some { at(l, p, k) } else { last_with(ls, p, k) }) by { assert(ls.push(l).drop_last() =~= ls); }
}
