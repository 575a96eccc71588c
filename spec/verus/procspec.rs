// ---------------------------------------------------------------- what processing yields
//@@ gen tag_names
//@@ gen decoders
/// what the decoder d makes of some content (the decoders have contracts of their own, see C11 and C13 to C16)
pub uninterp spec fn decoded(d: Decoder, b: Seq<u8>) -> Result<Shown, ParseError>;
/// the error that is kept undecoded, and the name used then
pub open spec fn kept(d: Decoder, e: ParseError) -> Option<Seq<char>> {
  match d {
    Decoder::AuthorisationResponseCode => if e is Unrecognised { Some("Authorisation Response Code (Unrecognised - likely payment system-specific)"@) } else { None },
    Decoder::TransactionType => if e is Unrecognised { Some("Transaction Type (Unrecognised - likely payment system-specific)"@) } else { None },
    Decoder::IssuerApplicationData => if e is NonCcdCompliant { Some("Issuer Application Data (Not CCD-Compliant)"@) } else { None },
    _ => None,
  }
}
pub open spec fn what_is(tag: Seq<u8>, data: SData) -> Result<SWhat, ParseError> {
  match tag_name(tag) {
    None => Ok(SWhat::Unknown),
    Some(n) => match (decoder_of(tag), data) {
      (Some(d), SData::Normal(b)) => match decoded(d, b) {
        Ok(v) => Ok(SWhat::Parsed(n, v)),
        Err(e) => match kept(d, e) { Some(m) => Ok(SWhat::Named(m)), None => Err(e) } },
      _ => Ok(SWhat::Named(n)),
    }
  }
}
pub open spec fn tag_post(t: RawEmvTag, r: Result<ProcessedEmvTag, ParseError>) -> bool {
  match r { Ok(p) => raw_of(p) == t && what_is(t.tag@, vdata(t.data)) == Ok::<SWhat, ParseError>(what_of(p)), Err(e) => what_is(t.tag@, vdata(t.data)) == Err::<SWhat, ParseError>(e) }
}

/// an object, then its children; the first error decides
pub open spec fn pnode(n: RawEmvNode) -> Result<PNode, ParseError> decreases n, 0int {
  match what_is(n.tag.tag@, vdata(n.tag.data)) { Err(e) => Err(e), Ok(what) => match pnodes(n.child_block.nodes@, n.child_block.nodes@.len()) { Err(e) => Err(e), Ok(kids) => Ok(PNode { raw: n.tag, what, kids }) } }
}
/// the first k objects of a level, in order
pub open spec fn pnodes(s: Seq<RawEmvNode>, k: nat) -> Result<Seq<PNode>, ParseError> decreases s, k {
  if k == 0 || k > s.len() { Ok(Seq::empty()) } else { match pnodes(s, (k - 1) as nat) { Err(e) => Err(e), Ok(r) => match pnode(s[k - 1]) { Err(e) => Err(e), Ok(x) => Ok(r.push(x)) } } }
}
pub proof fn pnodes_err(s: Seq<RawEmvNode>, k: nat, n: nat) requires k <= n <= s.len(), pnodes(s, k) is Err ensures pnodes(s, n) == pnodes(s, k) decreases n - k { if k < n { pnodes_err(s, k, (n - 1) as nat); } }
pub proof fn vpnodes_push(s: Seq<ProcessedEmvNode>, n: ProcessedEmvNode) ensures vpnodes(s.push(n)) == vpnodes(s).push(vpnode(n)) { assert(vpnodes(s.push(n)) =~= vpnodes(s).push(vpnode(n))); }
pub open spec fn block_post(b: RawEmvBlock, r: Result<ProcessedEmvBlock, ParseError>) -> bool {
  match r { Ok(p) => pnodes(b.nodes@, b.nodes@.len()) == Ok::<Seq<PNode>, ParseError>(vpnodes(p.nodes@)), Err(e) => pnodes(b.nodes@, b.nodes@.len()) == Err::<Seq<PNode>, ParseError>(e) } }
pub open spec fn node_post(n: RawEmvNode, r: Result<ProcessedEmvNode, ParseError>) -> bool {
  match r { Ok(p) => pnode(n) == Ok::<PNode, ParseError>(vpnode(p)), Err(e) => pnode(n) == Err::<PNode, ParseError>(e) } }
