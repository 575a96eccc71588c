use vstd::prelude::*;
#[allow(unused_imports)]
use vstd::std_specs::iter::IteratorSpec;
verus! {
global size_of usize == 8;
//@@include out.rs
//@@ item src/emv/bitflag_values.rs struct EnabledBitRange
//@@ item src/emv/bitflag_values.rs enum Severity
//@@ item src/main.rs const BITS_PER_BYTE
/// any type that implements BitflagValue; the implementations are under contract elsewhere
#[verifier::external_body] pub struct Flags { p: core::marker::PhantomData<u8> }
impl Flags {
  pub uninterp spec fn bytes(&self) -> Seq<u8>;
  pub uninterp spec fn ranges(&self) -> Seq<EnabledBitRange>;
  pub uninterp spec fn size(&self) -> int;
  #[verifier::external_body] pub fn vx_num_bytes(&self) -> (r: usize) ensures r == self.size() { unimplemented!() }
  #[verifier::external_body] pub fn get_bit_display_information(&self) -> (r: Vec<EnabledBitRange>) ensures r@ == self.ranges() { unimplemented!() }
  #[verifier::external_body] pub fn get_binary_representation(&self) -> (r: Vec<u8>) ensures r@ == self.bytes() { unimplemented!() }
}
//@@include order.rs
/// at most 8 bytes, and what is to be explained is in order
pub open spec fn well_formed(v: Flags) -> bool { 1 <= v.size() <= 8 && v.bytes().len() == v.size() && in_order(v.ranges(), 8 * v.size()) }
/// the column of a bit among n bits in groups of eight, the highest first
pub open spec fn col(bit: int, n: int) -> int { let k = n - 1 - bit; k + k / 8 }
pub open spec fn bit_at(c: int, n: int) -> int { n - 1 - (c - c / 9) }
// ---- the bits
pub open spec fn byte_bits(s: Seq<Ev>, b: u8, k: int) -> Seq<Ev> decreases k { if k <= 0 { s } else { byte_bits(s, b, k - 1) + tx(if b & (1u8 << ((8 - k) as u8)) > 0 { "1"@ } else { "0"@ }) } }
pub open spec fn bits(s: Seq<Ev>, b: Seq<u8>, k: int) -> Seq<Ev> decreases k { if k <= 0 { s } else { let t = bits(s, b, k - 1); byte_bits(if k > 1 { t + tx(" "@) } else { t }, b[k - 1], 8) } }
// ---- the brackets
pub open spec fn bracket(r: Seq<EnabledBitRange>, bit: int) -> char {
  if exists|j: int| 0 <= j < r.len() && low(#[trigger] r[j]) <= bit <= r[j].offset {
    let x = r[choose|j: int| 0 <= j < r.len() && low(#[trigger] r[j]) <= bit <= r[j].offset];
    if x.len == 1 { '\u{2502}' } else if bit == x.offset { '\u{251c}' } else if bit == low(x) { '\u{2518}' } else { '\u{2500}' }
  } else { ' ' }
}
pub open spec fn bracket_at(r: Seq<EnabledBitRange>, c: int, n: int) -> Ev { if c % 9 == 8 { Ev::Ch(' ') } else { Ev::Ch(bracket(r, bit_at(c, n))) } }
/// up to and including the lowest bit of the k-th range
pub open spec fn brackets(r: Seq<EnabledBitRange>, k: int, n: int) -> Seq<Ev> { Seq::new(if k <= 0 { 0 } else { (col(low(r[k - 1]), n) + 1) as nat }, |c: int| bracket_at(r, c, n)) }
pub open spec fn multi(r: Seq<EnabledBitRange>) -> bool { exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]).len > 1 }
// ---- the explanations
/// some range has its highest bit here
pub open spec fn arm(r: Seq<EnabledBitRange>, bit: int) -> bool { exists|j: int| 0 <= j < r.len() && (#[trigger] r[j]).offset == bit }
pub open spec fn arm_at(r: Seq<EnabledBitRange>, c: int, n: int) -> Ev { if c % 9 == 8 { Ev::Ch(' ') } else if arm(r, bit_at(c, n)) { Ev::Ch('\u{2502}') } else { Ev::Ch(' ') } }
pub open spec fn arms(r: Seq<EnabledBitRange>, w: int, n: int) -> Seq<Ev> { Seq::new(w as nat, |c: int| arm_at(r, c, n)) }
pub open spec fn tint(s: Severity, sev: bool) -> ColorSpec { ColorSpec { fg: if !sev { None } else { match s { Severity::Normal => None, Severity::Warning => Some(Color::Yellow), Severity::Error => Some(Color::Red) } }, bold: false } }
pub open spec fn explain(s: Seq<Ev>, r: Seq<EnabledBitRange>, x: EnabledBitRange, n: int, ind: int, sev: bool) -> Seq<Ev> {
  s + tabs(ind) + arms(r, col(x.offset as int, n), n) + tx("\u{2514} "@) + seq![Ev::Set(tint(x.severity, sev))] + tx(x.explanation@) + tx("\n"@) + seq![Ev::Reset]
}
/// the last k ranges, the lowest first
pub open spec fn explained(s: Seq<Ev>, r: Seq<EnabledBitRange>, k: int, n: int, ind: int, sev: bool) -> Seq<Ev> decreases k { if k <= 0 { s } else { explain(explained(s, r, k - 1, n, ind, sev), r, r[r.len() - k], n, ind, sev) } }
pub open spec fn diagram(s: Seq<Ev>, v: Flags, ind: int, sev: bool) -> Seq<Ev> {
  let n = 8 * v.size(); let r = v.ranges();
  let a = bits(s + tabs(ind) + seq![Ev::Set(bold())], v.bytes(), v.size()) + tx("\n"@) + seq![Ev::Reset];
  let b = if multi(r) { a + tabs(ind) + brackets(r, r.len() as int, n) + tx("\n"@) } else { a };
  explained(b, r, r.len() as int, n, ind, sev)
}
pub open spec fn arm_from(r: Seq<EnabledBitRange>, k: int, bit: int) -> bool { exists|j: int| k <= j < r.len() && (#[trigger] r[j]).offset == bit }
pub open spec fn multi_from(r: Seq<EnabledBitRange>, k: int) -> bool { exists|j: int| k <= j < r.len() && (#[trigger] r[j]).len > 1 }
pub open spec fn fill(k: int, c: char) -> Seq<Ev> { Seq::new(k as nat, |i: int| Ev::Ch(c)) }
/// blanks before a range whose highest bit is o: for the bits o+1 to e-1 and the gaps between bytes
pub open spec fn gap(o: int, e: int, n: int) -> int { (if e > o { e - o - 1 } else { 0 }) + e / 8 - o / 8 - if e == n && e > o { 1int } else { 0 } }
pub open spec fn end_of(r: Seq<EnabledBitRange>, k: int, n: int) -> int { if k <= 0 { n } else { low(r[k - 1]) } }
pub proof fn bracket_of(r: Seq<EnabledBitRange>, k: int, bit: int, v: Flags)
  requires well_formed(v), r == v.ranges(), 0 <= k < r.len(), low(r[k]) <= bit <= r[k].offset
  ensures bracket(r, bit) == (if r[k].len == 1 { '\u{2502}' } else if bit == r[k].offset { '\u{251c}' } else if bit == low(r[k]) { '\u{2518}' } else { '\u{2500}' })
{
  let j = choose|j: int| 0 <= j < r.len() && low(#[trigger] r[j]) <= bit <= r[j].offset;
  assert(0 <= j < r.len() && low(r[j]) <= bit <= r[j].offset);
  if j < k { assert(r[k].offset < low(r[j])); } else if j > k { assert(r[j].offset < low(r[k])); }
}
/// between two neighbouring ranges there is nothing
pub proof fn bracket_none(r: Seq<EnabledBitRange>, k: int, bit: int, n: int, v: Flags)
  requires well_formed(v), r == v.ranges(), 0 <= k < r.len(), n == 8 * v.size(), r[k].offset < bit < end_of(r, k, n)
  ensures bracket(r, bit) == ' '
{
  assert forall|j: int| 0 <= j < r.len() implies !(low(#[trigger] r[j]) <= bit <= r[j].offset) by {
    if j > k { assert(r[j].offset < low(r[k])); } else if j < k { if j < k - 1 { assert(r[k - 1].offset < low(r[j])); } }
  }
}
/// columns and bits: the columns that are not between two bytes name the bits in descending order
pub proof fn col_bit(c: int, b: int, n: int)
  requires 0 <= b < n, 0 <= c
  ensures col(b, n) % 9 != 8, c % 9 != 8 && c < col(b, n) ==> bit_at(c, n) > b, c == col(b, n) ==> bit_at(c, n) == b, c % 9 != 8 && c > col(b, n) ==> bit_at(c, n) < b
{
  let k = n - 1 - b; let q = c / 9; let t = c % 9; let p = k / 8; let u = k % 8;
  assert(c == 9 * q + t && k == 8 * p + u && col(b, n) == 9 * p + u && bit_at(c, n) == n - 1 - (8 * q + t));
}
/// the bits of one byte are next to each other
pub proof fn col_byte(lo: int, hi: int, n: int)
  requires 0 <= lo <= hi < n, lo / 8 == hi / 8, n % 8 == 0
  ensures col(lo, n) == col(hi, n) + hi - lo, forall|c: int| col(hi, n) <= c <= col(lo, n) ==> #[trigger] (c % 9) != 8 && bit_at(c, n) == hi - (c - col(hi, n))
{
  let m = n / 8; let k = n - 1 - hi; let j = n - 1 - lo;
  assert(k / 8 == m - 1 - hi / 8 && j / 8 == m - 1 - lo / 8);
  assert forall|c: int| col(hi, n) <= c <= col(lo, n) implies #[trigger] (c % 9) != 8 && bit_at(c, n) == hi - (c - col(hi, n)) by {
    let p = k / 8; assert(c == 9 * p + (c - 9 * p) && 0 <= c - 9 * p < 8);
    assert(c / 9 == p);
  }
}
/// the blanks before a range take it to its column
pub proof fn gap_col(o: int, e: int, n: int)
  requires 0 <= o < e <= n, n % 8 == 0
  ensures e < n ==> col(e, n) + 1 + gap(o, e, n) == col(o, n), e == n ==> gap(o, e, n) == col(o, n), gap(o, e, n) >= 0
{
  let m = n / 8; assert((n - 1 - o) / 8 == m - 1 - o / 8); if e < n { assert((n - 1 - e) / 8 == m - 1 - e / 8); }
}
pub proof fn gap_step(o: int, i: int, n: int)
  requires 0 <= i, 0 <= o, o + i < n, n % 8 == 0
  ensures gap(o, o + i + 1, n) - gap(o, o + i, n) == (if (o + i + 1) % 8 == 0 && o + i + 1 < n { 1int } else { 0 }) + (if i > 0 { 1int } else { 0 }), gap(o, o + i, n) >= 0, gap(o, o, n) == 0
{
  let e = o + i; assert((e + 1) / 8 == e / 8 + if (e + 1) % 8 == 0 { 1int } else { 0 });
}
pub open spec fn drawn(b: Seq<Ev>, x: EnabledBitRange) -> Seq<Ev> { if x.len == 1 { b + fill(1, '\u{2502}') } else { b + fill(1, '\u{251c}') + fill(x.len - 2, '\u{2500}') + fill(1, '\u{2518}') } }
/// one more range
pub proof fn brackets_step(r: Seq<EnabledBitRange>, k: int, n: int, v: Flags)
  requires well_formed(v), r == v.ranges(), 0 <= k < r.len(), n == 8 * v.size()
  ensures brackets(r, k + 1, n) == drawn(brackets(r, k, n) + fill(gap(r[k].offset as int, end_of(r, k, n), n), ' '), r[k])
{
  let x = r[k]; let o = x.offset as int; let e = end_of(r, k, n); let g = gap(o, e, n);
  if k > 0 { assert(r[k].offset < low(r[k - 1])); assert(low(r[k - 1]) / 8 == r[k - 1].offset as int / 8); }
  gap_col(o, e, n); col_byte(low(x), o, n);
  let c0 = brackets(r, k, n).len() as int;
  assert(c0 + g == col(o, n));
  let b = brackets(r, k, n) + fill(g, ' ');
  let t = drawn(b, x);
  assert(t.len() == brackets(r, k + 1, n).len());
  assert forall|c: int| 0 <= c < t.len() implies t[c] == brackets(r, k + 1, n)[c] by { brackets_col(r, k, n, v, c); }
  assert(t =~= brackets(r, k + 1, n));
}
pub proof fn brackets_col(r: Seq<EnabledBitRange>, k: int, n: int, v: Flags, c: int)
  requires well_formed(v), r == v.ranges(), 0 <= k < r.len(), n == 8 * v.size(), 0 <= c <= col(low(r[k]), n)
  ensures ({ let x = r[k]; let o = x.offset as int; let e = end_of(r, k, n); let t = drawn(brackets(r, k, n) + fill(gap(o, e, n), ' '), x); c < t.len() ==> t[c] == bracket_at(r, c, n) })
{
  hide(bracket); hide(col); hide(bit_at); hide(gap);
  let x = r[k]; let o = x.offset as int; let e = end_of(r, k, n); let g = gap(o, e, n); let bit = bit_at(c, n); let lo = low(x);
  if k > 0 { assert(r[k].offset < low(r[k - 1])); assert(low(r[k - 1]) / 8 == r[k - 1].offset as int / 8); }
  gap_col(o, e, n); col_byte(lo, o, n);
  let b0 = brackets(r, k, n); let b = b0 + fill(g, ' ');
  if k > 0 { col_bit(0, e, n); assert(col(e, n) >= 0) by { reveal(col); } }
  let c0 = b0.len() as int; assert(c0 + g == col(o, n));
  let t = drawn(b, x);
  if c < t.len() {
    if c < c0 { assert(t[c] == b[c] && b[c] == b0[c]); }
    else if c < c0 + g {
      assert(t[c] == b[c] && b[c] == Ev::Ch(' '));
      if c % 9 != 8 { col_bit(c, o, n); if k > 0 { col_bit(c, e, n); } else { assert(bit < n) by { reveal(bit_at); } } bracket_none(r, k, bit, n, v); }
    } else {
      assert(c % 9 != 8 && bit == o - (c - col(o, n)));
      bracket_of(r, k, bit, v);
    }
  }
}
pub proof fn arm_bit(a: u64, o: u8, b: u8) requires o < 64, b < 64 ensures ((a | (1u64 << o)) & (1u64 << b) > 0) == ((a & (1u64 << b) > 0) || o == b)
{ assert(((a | (1u64 << o)) & (1u64 << b) > 0) == ((a & (1u64 << b) > 0) || o == b)) by (bit_vector) requires o < 64, b < 64; }
impl Flags {
//@@ fn src/emv/bitflag_values.rs `impl<V> DisplayBreakdown for V` display_breakdown
//@ prints print=stdout
//@ locals bold_colour_spec num_bytes num_bits enabled_bit_ranges binary_repr first byte offset arm_bits multi_bit_value enabled_bit_range current_offset enabled_bit_range i _ enabled_bit i
//@ loops for for for for for for for for
//@ lower body /V::NUM_BYTES/ => self.vx_num_bytes()
//@ begin
	hide(bits); hide(byte_bits); hide(brackets); hide(bracket); hide(explain); hide(explained); hide(tabs); hide(tx); hide(arms);
	let ghost R = self.ranges(); let ghost n = 8 * self.size(); let ghost ind = indentation as int; let ghost sev = show_severity_colours;
	let ghost S = old(stdout)@ + tabs(ind) + seq![Ev::Set(bold())];
	let ghost A = bits(S, self.bytes(), self.size()) + tx("\n"@) + seq![Ev::Reset];
	let ghost B = if multi(R) { A + tabs(ind) + brackets(R, R.len() as int, n) + tx("\n"@) } else { A };
	proof { reveal(bits); reveal(explained); reveal(brackets); assert(forall|b: u8| (0u64 & (#[trigger] (1u64 << b))) == 0) by (bit_vector); }
//@ spec
requires well_formed(*self)
ensures final(stdout)@ == diagram(old(stdout)@, *self, indentation as int, show_severity_colours)
//@ iter 0 i0
//@ loop 0
	invariant i0.seq() == self.bytes(), stdout@ == bits(S, self.bytes(), i0.index() as int), first == (i0.index() == 0), i0.index() <= self.bytes().len(),
//@ loop 0 begin
	let ghost t0 = if i0.index() > 0 { stdout@ + tx(" "@) } else { stdout@ };
	proof { assert(byte_bits(t0, byte, 0) == t0) by { reveal(byte_bits); } }
//@ loop 0 end
	proof { reveal_with_fuel(bits, 2); }
//@ iter 1 i1
//@ loop 1
	invariant i1.seq().len() == 8, i1.index() <= 8, forall|i: int| 0 <= i < 8 ==> #[trigger] i1.seq()[i] == 7 - i, stdout@ == byte_bits(t0, byte, i1.index() as int),
//@ loop 1 end
	proof { reveal_with_fuel(byte_bits, 2); }
//@ iter 2 i2
//@ loop 2
	invariant enabled_bit_ranges@ == R, R == self.ranges(), well_formed(*self), i2.seq().len() == R.len(), i2.index() <= R.len(), forall|i: int| 0 <= i < R.len() ==> *(#[trigger] i2.seq()[i]) == R[R.len() - 1 - i],
	  forall|b: u8| b < 64 ==> (#[trigger] (arm_bits & (1u64 << b)) > 0) == arm_from(R, R.len() - i2.index(), b as int),
	  multi_bit_value == multi_from(R, R.len() - i2.index()),
//@ loop 2 begin
	let ghost a0 = arm_bits;
//@ loop 2 end
	proof {
	  let k = R.len() - 1 - i2.index();
	  assert forall|b: u8| b < 64 implies (#[trigger] (arm_bits & (1u64 << b)) > 0) == arm_from(R, k, b as int) by {
	    arm_bit(a0, R[k].offset, b); let p = a0 & (1u64 << b);
	    if arm_from(R, k, b as int) { let j = choose|j: int| k <= j < R.len() && (#[trigger] R[j]).offset == b; if j > k { assert(arm_from(R, k + 1, b as int)); } }
	    if arm_from(R, k + 1, b as int) { let j = choose|j: int| k + 1 <= j < R.len() && (#[trigger] R[j]).offset == b; assert(R[j].offset == b); }
	  }
	}
//@ iter 3 i3
//@ loop 3
	invariant enabled_bit_ranges@ == R, R == self.ranges(), well_formed(*self), n == 8 * self.size(), num_bits == n, i3.seq().len() == R.len(), i3.index() <= R.len(), forall|i: int| 0 <= i < R.len() ==> *(#[trigger] i3.seq()[i]) == R[i],
	  stdout@ == A + tabs(ind) + brackets(R, i3.index() as int, n),
	  i3.index() < R.len() ==> current_offset == end_of(R, i3.index() as int, n) - 1,
//@ loop 3 begin
	let ghost k3 = i3.index() as int; let ghost t3 = stdout@; let ghost x3 = R[k3]; let ghost e3 = end_of(R, k3, n);
	proof { assert(*enabled_bit_range == x3); if k3 > 0 { assert(R[k3].offset < low(R[k3 - 1])); } }
//@ loop 3 end
	proof {
	  brackets_step(R, k3, n, *self);
	  let g = fill(gap(x3.offset as int, e3, n), ' ');
	  let X = A + tabs(ind); let b0 = brackets(R, k3, n);
	  reveal(tx); reveal_strlit("\u{2502}"); reveal_strlit("\u{251c}"); reveal_strlit("\u{2518}");
	  assert(tx("\u{2502}"@) =~= fill(1, '\u{2502}')); assert(tx("\u{251c}"@) =~= fill(1, '\u{251c}')); assert(tx("\u{2518}"@) =~= fill(1, '\u{2518}'));
	  if x3.len > 1 { assert(X + b0 + g + fill(1, '\u{251c}') + fill(x3.len - 2, '\u{2500}') + fill(1, '\u{2518}') =~= X + (b0 + g + fill(1, '\u{251c}') + fill(x3.len - 2, '\u{2500}') + fill(1, '\u{2518}'))); }
	  else { assert(X + b0 + g + fill(1, '\u{2502}') =~= X + (b0 + g + fill(1, '\u{2502}'))); }
	  if k3 + 1 < R.len() { assert(R[k3 + 1].offset < low(R[k3])); }
	}
//@ iter 4 i4
//@ loop 4
	invariant num_bits == n, n <= 64, n % 8 == 0, x3 == *enabled_bit_range, x3.offset < e3 <= n, i4.seq().len() == e3 - x3.offset, i4.index() <= i4.seq().len(), forall|i: int| 0 <= i < i4.seq().len() ==> #[trigger] i4.seq()[i] == x3.offset + i,
	  stdout@ == t3 + fill(gap(x3.offset as int, x3.offset + i4.index(), n), ' '),
//@ loop 4 begin
	let ghost s4 = stdout@;
//@ loop 4 end
	proof {
	  reveal(tx); reveal_strlit(" "); let o = x3.offset as int; let i = i4.index() as int;
	  let g0 = gap(o, o + i, n); let g1 = gap(o, o + i + 1, n);
	  gap_step(o, i, n);
	  assert(fill(g0, ' ') + tx(" "@) =~= fill(g0 + 1, ' ')); assert(fill(g0 + 1, ' ') + tx(" "@) =~= fill(g0 + 2, ' '));
	  assert(t3 + fill(g0, ' ') + tx(" "@) =~= t3 + fill(g0 + 1, ' ')); assert(t3 + fill(g0, ' ') + tx(" "@) + tx(" "@) =~= t3 + fill(g0 + 2, ' '));
	}
//@ iter 5 i5
//@ loop 5
	invariant i5.seq().len() == x3.len - 2, i5.index() <= x3.len - 2, stdout@ == t3 + fill(gap(x3.offset as int, e3, n), ' ') + tx("\u{251c}"@) + fill(i5.index() as int, '\u{2500}'),
//@ loop 5 end
	proof { reveal(tx); reveal_strlit("\u{2500}"); let k = i5.index() as int; assert(fill(k, '\u{2500}') + tx("\u{2500}"@) =~= fill(k + 1, '\u{2500}'));
	  let y = t3 + fill(gap(x3.offset as int, e3, n), ' ') + tx("\u{251c}"@); assert(y + fill(k, '\u{2500}') + tx("\u{2500}"@) =~= y + (fill(k, '\u{2500}') + tx("\u{2500}"@))); }
//@ iter 6 i6
//@ loop 6
	invariant enabled_bit_ranges@ == R, R == self.ranges(), well_formed(*self), n == 8 * self.size(), num_bits == n, i6.seq().len() == R.len(), i6.index() <= R.len(), forall|i: int| 0 <= i < R.len() ==> *(#[trigger] i6.seq()[i]) == R[R.len() - 1 - i],
	  ind == indentation, sev == show_severity_colours,
	  forall|b: u8| b < 64 ==> (#[trigger] (arm_bits & (1u64 << b)) > 0) == arm(R, b as int),
	  stdout@ == explained(B, R, i6.index() as int, n, ind, sev),
//@ loop 6 begin
	let ghost t6 = stdout@; let ghost x6 = R[R.len() - 1 - i6.index()];
	proof { assert(*enabled_bit == x6); reveal(arms); assert(arms(R, 0, n) =~= Seq::empty()); assert(t6 + tabs(ind) + Seq::empty() =~= t6 + tabs(ind)); }
//@ loop 6 end
	proof { reveal_with_fuel(explained, 2); reveal(explain); }
//@ iter 7 i7
//@ loop 7
	invariant num_bits == n, n <= 64, n % 8 == 0, x6.offset < n, i7.seq().len() == n - x6.offset - 1, i7.index() <= i7.seq().len(), forall|i: int| 0 <= i < i7.seq().len() ==> #[trigger] i7.seq()[i] == 1 + i,
	  forall|b: u8| b < 64 ==> (#[trigger] (arm_bits & (1u64 << b)) > 0) == arm(R, b as int),
	  stdout@ == t6 + tabs(ind) + arms(R, i7.index() + i7.index() / 8, n),
//@ loop 7 end
	proof {
	  reveal(tx); reveal(arms); reveal_strlit(" "); reveal_strlit("\u{2502}"); let k = i7.index() as int; let w = k + k / 8; let z = t6 + tabs(ind);
	  let p = arm_bits & (1u64 << ((n - 1 - k) as u8));
	  assert(w % 9 != 8 && bit_at(w, n) == n - 1 - k);
	  let g = tx(if arm(R, n - 1 - k) { "\u{2502}"@ } else { " "@ });
	  assert(arms(R, w, n) + g =~= arms(R, w + 1, n));
	  assert(z + arms(R, w, n) + g =~= z + arms(R, w + 1, n));
	  if (n - 1 - k) % 8 == 0 { assert((w + 1) % 9 == 8); assert(arms(R, w + 1, n) + tx(" "@) =~= arms(R, w + 2, n)); assert(z + arms(R, w + 1, n) + tx(" "@) =~= z + arms(R, w + 2, n)); }
	}
//@@ end
}
}
fn main() {}
