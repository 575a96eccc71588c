// ---------------------------------------------------------------- the report of a tree
// the report of a decoded value: `dyn DisplayBreakdown`; the reports of the
// types behind it are under their own contracts
pub uninterp spec fn value_report(s: Seq<Ev>, v: Shown, ind: int, sev: bool) -> Seq<Ev>;
impl Shown {
  #[verifier::external_body]
  pub fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, show_severity_colours: bool)
    requires indentation <= 251
    ensures final(stdout)@ == value_report(old(stdout)@, *self, indentation as int, show_severity_colours)
  { unimplemented!() }
}
/// tag digits, byte count (None: unknown) and name
pub open spec fn tag_line(s: Seq<Ev>, tag: Seq<u8>, count: Option<nat>, name: Seq<char>, ind: int) -> Seq<Ev> {
  let t = small(head(s + tabs(ind), "Tag:"@) + tx(" 0x"@) + seq![Ev::Set(bold())], tag) + seq![Ev::Reset];
  let u = match count { Some(n) => t + tx(" - "@) + tx(dec(n)) + tx(" byte"@) + tx(if n == 1 { ""@ } else { "s"@ }) + tx(" - "@), None => t + tx(" - ?? bytes - "@) };
  u + tx(name) + tx("\n"@)
}
pub open spec fn count(d: EmvData) -> Option<nat> { match d { EmvData::Normal(b) => Some(b@.len()), EmvData::Masked => None } }
pub open spec fn name_line(s: Seq<Ev>, t: RawEmvTag, name: Seq<char>, ind: int) -> Seq<Ev> { tag_line(s, t.tag@, count(t.data), name, ind) }
pub open spec fn content(s: Seq<Ev>, t: RawEmvTag, ind: int) -> Seq<Ev> {
  match t.data {
    EmvData::Normal(b) => if b@.len() == 0 { s } else { dump(headln(s + tabs(ind), "Raw:"@), b@, 16, ind + 1, true) },
    EmvData::Masked => headln(s + tabs(ind), "* Masked *"@),
  }
}
pub open spec fn tag_report(s: Seq<Ev>, t: ProcessedEmvTag, ind: int, sev: bool) -> Seq<Ev> {
  match t {
    ProcessedEmvTag::Raw { raw_tag } => content(name_line(s, raw_tag, "<Unknown>"@, ind), raw_tag, ind),
    ProcessedEmvTag::Annotated { name, raw_tag } => content(name_line(s, raw_tag, name@, ind), raw_tag, ind),
    ProcessedEmvTag::Parsed { name, parsed, raw_tag } => value_report(headln(content(name_line(s, raw_tag, name@, ind), raw_tag, ind) + tabs(ind), "Parsed:"@), parsed, ind + 1, sev),
  }
}
pub open spec fn node_report(s: Seq<Ev>, n: ProcessedEmvNode, ind: int, sev: bool) -> Seq<Ev> decreases n {
  let k = n.child_block.nodes@;
  let t = tag_report(s, n.tag, ind, sev);
  if k.len() == 0 { t } else { nodes_report(headln(t + tabs(ind), "Constructed Data Object's Child Tags:"@), k, k.len() as int, ind + 1, sev) }
}
/// the first k of the objects, an empty line between two
pub open spec fn nodes_report(s: Seq<Ev>, n: Seq<ProcessedEmvNode>, k: int, ind: int, sev: bool) -> Seq<Ev> decreases n, k {
  if k <= 0 || k > n.len() { s } else { let t = nodes_report(s, n, k - 1, ind, sev); node_report(if k > 1 { t + tx("\n"@) } else { t }, n[k - 1], ind, sev) }
}
