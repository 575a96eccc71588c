// C20: the layers of the configuration and what the command line adds to them.
use vstd::prelude::*;
verus! {
//@@include coltypes.rs
//@@ item src/error.rs enum ParseError /r#type : Ordering/ => kind: core::cmp::Ordering
//@@include show.rs
//@@include text.rs
//@@include configspec.rs
impl ColourChoice {
//@@ fn src/config/colour_choice.rs `impl Default for ColourChoice` default
//@ spec
ensures r is Auto
//@@ end
//@@ contract colour try_from
}
impl Config {
//@@ fn src/config/mod.rs `impl Default for Config` default as default
//@ key Config.default
//@ spec
ensures is_default(r)
//@@ end
//@@ fn src/config/mod.rs `impl Config` figment
//@ prints format=
//@ begin
	proof { reveal_strlit("PEMV_"); reveal_strlit("CONFIG"); reveal_strlit("PROFILE"); reveal_strlit("PEMV_CONFIG"); reveal_strlit("PEMV_PROFILE");
	  assert("PEMV_CONFIG"@ =~= Seq::<char>::empty() + "PEMV_"@ + "CONFIG"@); assert("PEMV_PROFILE"@ =~= Seq::<char>::empty() + "PEMV_"@ + "PROFILE"@); }
//@ spec
ensures sources(r@)
//@ tail
	proof { reveal_with_fuel(with_all, 4); let e = vx_tail@.layers[2]; assert(vx_tail@.layers =~= seq![vx_tail@.layers[0], vx_tail@.layers[1], e]);
	  assert(e->Env_0.ignored =~= set!["CONFIG"@, "PROFILE"@]); }
//@@ end
}
/// every setting: command line, else environment, else file, else default
pub proof fn layered(m: ArgMatches, f: FigmentView, r: FigmentView)
  requires sources(f), r.profile == f.profile, forall|k: Seq<char>| #[trigger] effective(r, k) == (if on_command_line(m, k) is Some { on_command_line(m, k) } else { effective(f, k) })
  ensures forall|k: Seq<char>| #[trigger] effective(r, k) == chosen(m, r.profile, k)
{
  names_apart();
  assert forall|k: Seq<char>| #[trigger] effective(r, k) == chosen(m, r.profile, k) by {
    assert(effective(r, k) == (if on_command_line(m, k) is Some { on_command_line(m, k) } else { effective(f, k) }));
    reveal_with_fuel(last_with, 4);
    assert(f.layers.drop_last() =~= seq![f.layers[0], f.layers[1]]);
    assert(f.layers.drop_last().drop_last() =~= seq![f.layers[0]]);
  }
}
//@@ fn src/config/mod.rs apply_cli_arguments
//@ params figment matches
//@ begin
	let ghost f0 = figment@;
	proof { names_apart(); }
//@ spec
requires accepted(*matches)
ensures forall|k: Seq<char>| #[trigger] effective(r@, k) == (if on_command_line(*matches, k) is Some { on_command_line(*matches, k) } else { effective(figment@, k) }), r@.profile == figment@.profile,
  // every setting: command line, else environment, else file, else default
  sources(figment@) ==> forall|k: Seq<char>| #[trigger] effective(r@, k) == chosen(*matches, r@.profile, k)
//@ tail
	proof { if sources(f0) { layered(*matches, f0, vx_tail@); } }
//@@ end
}
fn main() {}
