// C23: the body of main.
use vstd::string::*;
use vstd::utf8::*;
//@@include hexspec.rs
//@@include tree.rs
//@@include ingspec.rs
//@@include proctypes.rs
//@@include procspec.rs
//@@include sortspec.rs
//@@include depthspec.rs
//@@include coltypes.rs
//@@include out.rs
//@@include bytespec.rs
//@@include reportspec.rs
//@@include numspec.rs
//@@ item src/emv/tlv_parsing/mod.rs enum TlvFormat
//@@include autospec.rs
//@@include errtext.rs
//@@include configspec.rs
// ---------------------------------------------------------------- settings
impl Config {
//@@ contract config figment
}
//@@ contract config apply_cli_arguments
impl ColourChoice {
//@@ contract colour change_based_on_tty
}
impl TermColorChoice {
//@@ contract colour from_choice
}
/// assumed: every configured value has the type of its setting (figment reports it otherwise)
impl Figment {
  #[verifier::external_body] pub fn extract_inner<T: VxVal>(&self, k: &str) -> (r: Result<T, VxFmtError>) ensures r is Ok, effective(self@, k@) == Some(r->Ok_0.val()) { unimplemented!() }
}
pub struct VxFmtError;
impl core::fmt::Debug for VxFmtError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
impl StandardStream {
  pub uninterp spec fn colours(&self) -> TermColorChoice;
  #[verifier::external_body] pub fn stdout(c: TermColorChoice) -> (r: StandardStream) ensures r@ == Seq::<Ev>::empty(), r.colours() == c { unimplemented!() }
}
// ---------------------------------------------------------------- clap (external crate)
#[verifier::external_body] pub struct Command { p: u8 }
#[verifier::external_body] pub fn build_cli() -> (r: Command) { unimplemented!() }
impl Clone for Command { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } }
impl Command {
  #[verifier::external_body] pub fn get_matches(self) -> (r: ArgMatches) ensures accepted(r), one_command(r) { unimplemented!() }
  #[verifier::external_body] pub fn print_help(&mut self) -> (r: Result<(), VxFmtError>) ensures r is Ok { unimplemented!() }
}
// ---------------------------------------------------------------- the decoders and their reports (contracts of C01 to C22)
pub uninterp spec fn value_of<T>(b: Seq<u8>) -> Result<T, ParseError>;
pub uninterp spec fn report<T>(s: Seq<Ev>, v: T, indentation: int, colours: bool) -> Seq<Ev>;
//@@ gen command_types
#[verifier::external_body] pub struct ServiceCode { p: u8 }
pub uninterp spec fn service_code(n: u16) -> Result<ServiceCode, ParseError>;
impl ServiceCode {
  #[verifier::external_body] pub fn try_from(n: u16) -> (r: Result<ServiceCode, ParseError>) ensures r == service_code(n) { unimplemented!() }
  #[verifier::external_body] pub fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, colours: bool) ensures final(stdout)@ == report(old(stdout)@, *self, indentation as int, colours) { unimplemented!() }
}
// the ones that are not a value's decoder: the contracts that C01, C04 to C08, C17 and C18 discharge
impl ProcessedEmvBlock {
//@@ contract process block_try_from as try_from
//@@ contract sort sort_nodes
//@@ contract report block_display as display_breakdown
}
//@@ contract auto parse as parse_auto_tlv
//@@ contract ber parse as parse_ber_tlv
//@@ contract ingenico parse as parse_ingenico_tlv
//@@ contract hex parse_hex_str
//@@ contract service parse_str_to_u16
/// a text has at most isize::MAX bytes
pub axiom fn text_size(s: Seq<char>) ensures encode_utf8(s).len() <= isize::MAX;
pub broadcast proof fn hex_size(s: Seq<char>) ensures (#[trigger] hex_bytes_of(s)).len() <= isize::MAX { text_size(s); hex_len(s); }
// decoding, processing and sorting keep the report within its indentation (unit `depth`)
pub broadcast proof fn ber_fits(b: RawEmvBlock, d: Seq<u8>, m: Seq<char>) requires vnodes(b.nodes@) == (#[trigger] ber(d, 0, m, 0))->Ok_0, ber(d, 0, m, 0) is Ok ensures deep(#[trigger] vnodes(b.nodes@), 251) { ber_deep(d, 0, m, 0); }
pub broadcast proof fn ing_fits(b: RawEmvBlock, s: Seq<char>, m: Seq<char>) requires vnodes(b.nodes@) == (#[trigger] ingenico(s, m))->Ok_0, ingenico(s, m) is Ok ensures deep(#[trigger] vnodes(b.nodes@), 251) { ing_deep(s, 0, m); }
pub broadcast proof fn detect_fits(b: RawEmvBlock, s: Seq<char>, m: Seq<char>) requires #[trigger] detect(s, m) == Detected::Ingenico(vnodes(b.nodes@)) || detect(s, m) == Detected::Ber(vnodes(b.nodes@)) ensures deep(#[trigger] vnodes(b.nodes@), 251) { ber_deep(hex_bytes_of(s), 0, m, 0); ing_deep(s, 0, m); }
pub broadcast proof fn processed_fits(b: RawEmvBlock, r: Result<ProcessedEmvBlock, ParseError>) requires #[trigger] block_post(b, r), r is Ok, deep(vnodes(b.nodes@), 251) ensures within(r->Ok_0.nodes@, 251) { process_keeps(b.nodes@, r->Ok_0.nodes@, 251); }
pub broadcast proof fn sorted_fits(a: Seq<ProcessedEmvNode>, b: Seq<ProcessedEmvNode>) requires within(a, 251), #[trigger] sorted_from(a, b) ensures within(b, 251) { sort_keeps(a, b, 251); }
// ---------------------------------------------------------------- what a run must write
pub open spec fn asked(m: ArgMatches, id: Seq<char>) -> Option<String> { arg::<String>(m, id) }
/// the commands exclude each other (clap: the group "operations")
pub open spec fn one_command(m: ArgMatches) -> bool { forall|a: int, b: int| 0 <= a < b < commands().len() ==> asked(m, #[trigger] commands()[a]) is None || asked(m, #[trigger] commands()[b]) is None }
//@@ gen apart_commands
pub open spec fn shown<T>(s: Seq<Ev>, v: Result<T, ParseError>) -> (Seq<Ev>, Option<ParseError>) { match v { Ok(x) => (report(s, x, 0, true), None), Err(e) => (s, Some(e)) } }
/// a report of the objects, sorted if so configured, after `s`
pub open spec fn reported(p: ProcessedEmvBlock, sort: bool, s: Seq<Ev>, out: Seq<Ev>) -> bool {
  exists|q: Seq<ProcessedEmvNode>| (if sort { sorted_from(p.nodes@, q) } else { q == p.nodes@ }) && out == #[trigger] nodes_report(s, q, q.len() as int, 0, true)
}
/// the objects are processed, then reported, or the error is kept
pub open spec fn tree(b: RawEmvBlock, sort: bool, s: Seq<Ev>, out: Seq<Ev>, e: Option<ParseError>) -> bool {
  exists|r: Result<ProcessedEmvBlock, ParseError>| #[trigger] block_post(b, r) && match r { Err(x) => out == Seq::<Ev>::empty() && e == Some(x), Ok(p) => e is None && reported(p, sort, s, out) }
}
/// what the decoder makes of the text decides; `s` is written before the report
pub open spec fn blocks(n: Result<Seq<SNode>, ParseError>, sort: bool, s: Seq<Ev>, out: Seq<Ev>, e: Option<ParseError>) -> bool {
  match n { Err(x) => out == Seq::<Ev>::empty() && e == Some(x), Ok(n) => exists|b: RawEmvBlock| #[trigger] vnodes(b.nodes@) == n && tree(b, sort, s, out, e) }
}
pub open spec fn said(r: Result<Seq<SNode>, PErr>) -> Result<Seq<SNode>, ParseError> { match r { Ok(n) => Ok(n), Err(e) => Err(err(e)) } }
pub open spec fn format_line(f: TlvFormat) -> Seq<Ev> { head(Seq::empty(), "TLV Format: "@) + tx(f.shown()) + tx("\n"@) + tx("\n"@) }
pub open spec fn outcome(m: ArgMatches, masks: Seq<char>, sort: bool, out: Seq<Ev>, e: Option<ParseError>) -> bool {
  let s = Seq::<Ev>::empty();
  let t = |id: Seq<char>| asked(m, id)->Some_0@;
//@@ gen command_outcomes
  else if asked(m, "auto-tlv"@) is Some { match detect(t("auto-tlv"@), masks) {
    Detected::Nothing => blocks(Err(ParseError::Unrecognised), sort, s, out, e),
    Detected::Ingenico(n) => blocks(Ok(n), sort, format_line(TlvFormat::Ingenico), out, e),
    Detected::Ber(n) => blocks(Ok(n), sort, format_line(TlvFormat::BerTlv), out, e) } }
  else if asked(m, "ber-tlv"@) is Some { blocks(said(ber(hex_bytes_of(t("ber-tlv"@)), 0, masks, 0)), sort, s, out, e) }
  else if asked(m, "ingenico-tlv"@) is Some { blocks(said(ingenico(t("ingenico-tlv"@), masks)), sort, s, out, e) }
  else if asked(m, "service-code"@) is Some { (out, e) == match number(t("service-code"@)) { Err(x) => (s, Some(x)), Ok(n) => shown(s, service_code(n)) } }
  else { out == s && e is None }
}
pub open spec fn asked_any(m: ArgMatches) -> bool { exists|i: int| 0 <= i < commands().len() && asked(m, #[trigger] commands()[i]) is Some }
pub open spec fn colour_used(v: Option<Val>) -> Option<TermColorChoice> { match v { Some(Val::Colour(c)) => Some(setting(if c is Auto && !is_terminal(Stream::Stdout) { ColourChoice::Never } else { c })), _ => None } }
pub open spec fn err_lines(e: Option<ParseError>) -> Seq<Ev> { match e { Some(x) => tx(x.shown()) + tx("\n"@), None => Seq::empty() } }
/// what main has written when it returns
pub open spec fn ran(m: ArgMatches, profile: Seq<char>, out: Seq<Ev>, colours: TermColorChoice, err: Seq<Ev>) -> bool {
  let masks = chosen(m, profile, "masking_characters"@);
  let sort = chosen(m, profile, "sort_parsed_tags"@);
  masks is Some && masks->Some_0 is Chars && sort is Some && sort->Some_0 is Flag && colour_used(chosen(m, profile, "cli_colour"@)) == Some(colours)
  && exists|e: Option<ParseError>| outcome(m, masks->Some_0->Chars_0, sort->Some_0->Flag_0, out, e) && err == #[trigger] err_lines(e)
}
//@@ fn src/main.rs main as vx_main
//@ param vx_err: &mut StandardStream
//@ key main
//@ locals cli_definition matches config_figment colour_choice masking_characters sort_parsed_tags stdout parse_error
//@ results map and_then
//@ prints print=&mut~stdout eprint=vx_err
//@ calls into=TermColorChoice::from_choice
//@ lower? body /\breturn;/ => { proof { assert(!asked_any(matches)); assert(stdout@ == Seq::<Ev>::empty()); } return; }
//@ begin
	hide(ber); hide(ing); hide(ingenico); hide(hex_bytes_of); hide(pnodes); hide(pnode); hide(vpnodes); hide(vnodes); hide(nodes_report); hide(sorted_from); hide(block_post); hide(detect); hide(deep); hide(within); hide(number); hide(error_text); hide(encode_utf8); hide(effective); hide(chosen);
	broadcast use {hex_size, ber_fits, ing_fits, detect_fits, processed_fits, sorted_fits};
//@ spec
requires old(vx_err)@ == Seq::<Ev>::empty()
//@ steps /StandardStream/
	let ghost vx_c = stdout.colours(); proof { apart(matches); }
//@ tail
	proof { assert(vx_err@ =~= err_lines(parse_error)); 
	  let p = config_figment@.profile;
	  assert(chosen(matches, p, "masking_characters"@) == Some(Val::Chars(masking_characters@)));
	  assert(chosen(matches, p, "sort_parsed_tags"@) == Some(Val::Flag(sort_parsed_tags)));
	  assert(colour_used(chosen(matches, p, "cli_colour"@)) == Some(vx_c));
	  assert(outcome(matches, masking_characters@, sort_parsed_tags, stdout@, parse_error));
	  assert(ran(matches, config_figment@.profile, stdout@, vx_c, vx_err@)); }
//@@ end
}
fn main() {}
