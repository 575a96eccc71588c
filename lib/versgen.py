"""Specification text generated from spec/tables.py for the Verus units."""
import oracle as O
import tables as T


def tag_names():
    """spec fn tag_name: the published tag table"""
    one, two = [], {}
    for h, n in sorted(O.TAGS.items()):
        b = bytes.fromhex(h)
        lit = '"%s"@' % n.replace('\\', '\\\\').replace('"', '\\"')
        if len(b) == 1:
            one.append(f'    if t[0] == {b[0]:#x} {{ Some({lit}) }} else')
        else:
            assert len(b) == 2
            two.setdefault(b[0], []).append(f'    if t[1] == {b[1]:#x} {{ Some({lit}) }} else')
    out = 'pub open spec fn tag_name(t: Seq<u8>) -> Option<Seq<char>> {\n  if t.len() == 1 {\n' + '\n'.join(one) + ' { None }\n  }'
    for a, l in sorted(two.items()):
        out += f' else if t.len() == 2 && t[0] == {a:#x} {{\n' + '\n'.join(l) + ' { None }\n  }'
    return out + ' else { None }\n}\n'


def decoders():
    """spec fn decoder_of: which tag has which value decoder"""
    names = list(dict.fromkeys(O.DECODER.values()))
    out = 'pub enum Decoder { ' + ', '.join(names) + ' }\n'
    out += 'pub open spec fn decoder_of(t: Seq<u8>) -> Option<Decoder> {\n'
    for h, n in sorted(O.DECODER.items()):
        b = bytes.fromhex(h)
        c = ' && '.join([f't.len() == {len(b)}'] + [f't[{i}] == {x:#x}' for i, x in enumerate(b)])
        out += f'  if {c} {{ Some(Decoder::{n}) }} else\n'
    return out + '  { None }\n}\n'


def lit(x):
    return '"%s"@' % x.replace('\\', '\\\\').replace('"', '\\"')


def strlit(x):
    return lit(x)[:-1]


WHERE = {'FormatCode': 'emv/ccd/cci', 'CryptogramVersion': 'emv/ccd/cci', 'GenAc1ApplicationCryptogramType': 'emv/ccd/cvr', 'GenAc2ApplicationCryptogramType': 'emv/ccd/cvr',
         'CvMethod': 'emv/cv_rule/cv_method', 'CvmCondition': 'emv/cv_rule/cvm_condition', 'CvmResult': 'emv/cvm_results', 'TransactionType': 'emv/transaction_type',
         'TerminalType': 'emv/terminal_type', 'PosEntryMode': 'emv/pos_entry_mode', 'AuthorisationResponseCode': 'emv/authorisation_response_code',
         'Interchange': 'non_emv/service_code', 'Technology': 'non_emv/service_code', 'AuthorisationProcessing': 'non_emv/service_code', 'AllowedServices': 'non_emv/service_code',
         'PinRequirements': 'non_emv/service_code', 'TagClass': 'emv/tlv_parsing/mod',
         'TerminalVerificationResults': 'emv/tvr', 'TransactionStatusInformation': 'emv/tsi', 'CommonCoreIdentifier': 'emv/ccd/cci', 'CardVerificationResults': 'emv/ccd/cvr',
         'AdditionalTerminalCapabilities': 'emv/additional_terminal_capabilities', 'TerminalCapabilities': 'emv/terminal_capabilities', 'CardholderVerificationRule': 'emv/cv_rule/mod'}
OPT = {'OptionalCvMethod': ('CvMethod', 'Unknown (likely issuer or payment system-specific)'), 'OptionalCvmCondition': ('CvmCondition', 'Unknown (likely payment system-specific)')}
REPR = ['FormatCode', 'CryptogramVersion', 'GenAc1ApplicationCryptogramType', 'GenAc2ApplicationCryptogramType', 'CvMethod', 'CvmCondition', 'CvmResult', 'TransactionType', 'TerminalType']


def at(e):
    return f'src/{WHERE[e]}.rs!'


def total(e):
    """every value of the enum's code range has an entry"""
    return any(vals is None for _, vals, _ in T.ENUMS[e][2])


def enum(e, show=True):
    """the contracts of one code table"""
    typ, err, vs = T.ENUMS[e]
    o = f'//@@ item {at(e)} enum {e}\nimpl Copy for {e} {{}}\nimpl Clone for {e} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ *self }} }}\n'
    wild = 'None'
    o += f'pub open spec fn {e}_of(x: u8) -> Option<{e}> {{\n'
    for v, vals, _ in vs:
        if vals is None:
            wild = f'Some({e}::{v})'
        else:
            o += '  if ' + ' || '.join(f'x == {y:#04x}' for y in vals) + f' {{ Some({e}::{v}) }} else\n'
    o += f'  {{ {wild} }}\n}}\n'
    o += f'pub open spec fn {e}_text(v: {e}) -> Seq<char> {{ match v {{ ' + ', '.join(f'{e}::{v} => {lit(t)}' for v, _, t in vs) + ' } }\n'
    o += f'impl {e} {{\n'
    if err:
        o += f"""//@@ fn {at(e)} `impl TryFrom<u8> for {e}` try_from
//@ key {e}.try_from
//@ params value
//@ spec
ensures r == (match {e}_of(value) {{ Some(v) => Ok::<{e}, ParseError>(v), None => Err(ParseError::{err}) }})
//@@ end
"""
    else:
        o += f"""//@@ fn {at(e)} `impl From<u8> for {e}` from
//@ key {e}.from
//@ params value
//@ spec
ensures Some(r) == {e}_of(value)
//@@ end
"""
    o += '}\n'
    if e in REPR:
        o += f'impl VxU8 for {e} {{\n  open spec fn code(&self) -> u8 {{ match *self {{ ' + ', '.join(f'{e}::{v} => {vals[0]:#04x}' for v, vals, _ in vs) + ' } }\n'
        o += f"""//@@ fn {at(e)} `impl From<{e}> for u8` from as vx_u8
//@ key {e}.code
//@ params value
//@ lower sig /Self/ => u8
//@ lower sig /value: {e}/ => value: Self
//@@ end
}}
/// the code of an entry decodes to it, and an entry is decoded from its own code only
pub proof fn {e}_back(x: u8) ensures {e}_of(x) is Some ==> {e}_of(x)->0.code() == x {{}}
"""
    if show:
        o += f"""impl VxShow for {e} {{ open spec fn shown(&self) -> Seq<char> {{ {e}_text(*self) }} }}
impl {e} {{
//@@ fn {at(e)} `impl std::fmt::Display for {e}` fmt
//@ key {e}.fmt
//@ params self f
//@ lower sig /std::fmt::Formatter<'_>/ => VxText
//@ lower sig /std::fmt::Result/ => Result<(), VxFmtError>
//@ spec
ensures final(f)@ == old(f)@ + self.shown(), r is Ok
//@@ end
}}
"""
    return o


def optional(n):
    e, text = OPT[n]
    src = f'src/{WHERE[e]}.rs'
    return f"""//@@ item {src} struct {n} /raw :/ => pub raw :
impl Copy for {n} {{}}
impl Clone for {n} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ *self }} }}
impl {n} {{
//@@ fn {src} `impl From<u8> for {n}` from as try_from
//@ key {n}.from
//@ params value
//@ lower sig /Self/ => Result<Self, ParseError>
//@ lower body /^(.*)$/ => Ok({{ \\1 }})
//@ spec
ensures r == Ok::<{n}, ParseError>({n} {{ internal: {e}_of(value), raw: value }})
//@@ end
}}
impl VxU8 for {n} {{
  open spec fn code(&self) -> u8 {{ self.raw }}
//@@ fn {src} `impl From<{n}> for u8` from as vx_u8
//@ key {n}.code
//@ params value
//@ lower sig /Self/ => u8
//@ lower sig /value: {n}/ => value: Self
//@@ end
}}
impl VxShow for {n} {{ open spec fn shown(&self) -> Seq<char> {{ match self.internal {{ Some(v) => {e}_text(v), None => {lit(text)} }} }} }}
impl {n} {{
//@@ fn {src} `impl Display for {n}` fmt
//@ key {n}.fmt
//@ params self f
//@ prints write=f
//@ lower sig /Formatter<'_>/ => VxText
//@ lower sig /FmtResult/ => Result<(), VxFmtError>
//@ spec
ensures final(f)@ == old(f)@ + self.shown(), r is Ok
//@@ end
}}
"""


def tz(m):
    return (m & -m).bit_length() - 1


def raw(i, m, s='s'):
    return f'({s}[{i}] & {m:#04x})' + (f' >> {tz(m)}' if tz(m) else '')


def used(n):
    k, fs = T.BITFLAGS[n]
    u = [0] * k
    for i, m, *_ in fs:
        u[i] |= m
    return u


def flags(n):
    """the contracts of one bitflag value"""
    k, fs = T.BITFLAGS[n]
    U = used(n)
    p = at(n)
    o = f'//@@ item {p} struct {n}\n'
    vals = []
    for i, m, f, t, _, _ in fs:
        r = raw(i, m)
        if t == 'bool':
            vals.append(f'{f}: s[{i}] & {m:#04x} != 0')
        elif t == 'u8':
            vals.append(f'{f}: {r}')
        elif t in OPT:
            vals.append(f'{f}: {t} {{ internal: {OPT[t][0]}_of({r}), raw: {r} }}')
        else:
            vals.append(f'{f}: {t}_of({r})->0')
    conds = [(f'{t}_of({raw(i, m)}) is None', T.ENUMS[t][1]) for i, m, f, t, _, _ in fs if t in T.ENUMS]
    assert len({e for _, e in conds}) <= 1
    bad = f's.len() != {k}' + ''.join(f' || {c}' for c, _ in conds)
    o += f'/// no value of this kind\npub open spec fn {n}_bad(s: Seq<u8>) -> bool {{ {bad} }}\n'
    o += f'pub open spec fn {n}_err(s: Seq<u8>) -> ParseError {{ if s.len() != {k} {{ ParseError::ByteCountIncorrect {{ kind: Ordering::Equal, expected: {k}, found: s.len() as usize }} }} else {{ ParseError::{conds[0][1] if conds else "NonCompliant"} }} }}\n'
    o += f'/// the value that the bytes stand for\npub open spec fn {n}_is(s: Seq<u8>, v: {n}) -> bool {{ !{n}_bad(s) && ' + ' && '.join('v.' + x.replace(': ', ' == (', 1) + ')' for x in vals) + ' }\n'
    # representation
    rep = ['0u8'] * k
    for i in range(k):
        ts = []
        for j, m, f, t, _, _ in fs:
            if j == i:
                ts.append(f'(if v.{f} {{ {m:#04x}u8 }} else {{ 0u8 }})' if t == 'bool' else f'(v.{f}' + ('' if t == 'u8' else '.code()') + (f' << {tz(m)})' if tz(m) else ')'))
        if ts:
            rep[i] = ' | '.join(ts) + ' | 0u8'
    o += f'pub open spec fn {n}_bytes(v: {n}) -> Seq<u8> {{ seq![' + ', '.join(rep) + '] }\n'
    # masks
    ens, pr = [], []
    for i, m, f, t, _, _ in fs:
        x = f'forall|x: u8| #[trigger] ({m:#04x}u8 & (x & {U[i]:#04x}u8)) == x & {m:#04x}u8'
        y = f'forall|x: u8| #[trigger] ((x & {U[i]:#04x}u8) & {m:#04x}u8) == x & {m:#04x}u8'
        if x not in ens:
            ens += [x, y]
            pr += [f'assert({x}) by (bit_vector);', f'assert({y}) by (bit_vector);']
    o += f'pub proof fn {n}_masks() ensures ' + ', '.join(ens) + ' { ' + ' '.join(pr) + ' }\n'
    # round trip, byte by byte
    for i in range(k):
        ts, calls = [], ''
        for j, m, f, t, _, _ in fs:
            if j == i:
                if t == 'bool':
                    ts.append(f'(if x & {m:#04x} != 0 {{ {m:#04x}u8 }} else {{ 0u8 }})')
                else:
                    r = f'(x & {m:#04x})' + (f' >> {tz(m)}' if tz(m) else '')
                    ts.append(f'(({r})' + (f' << {tz(m)})' if tz(m) else ')'))
                    if t in T.ENUMS:
                        calls += f' {t}_back({raw(j, m)});'
        o += f'pub proof fn {n}_back{i}(s: Seq<u8>, v: {n}) requires {n}_is(s, v) ensures {n}_bytes(v)[{i}] == (s[{i}] & {U[i]:#04x}u8) as u8\n{{{calls} let x = s[{i}];'
        o += f' assert(({" | ".join(ts)} | 0u8) == x & {U[i]:#04x}) by (bit_vector); }}\n' if ts else ' assert(x & 0 == 0) by (bit_vector); }\n'
    seq_ = 'seq![' + ', '.join(f'(s[{i}] & {U[i]:#04x}u8) as u8' for i in range(k)) + ']'
    o += f'/// the used bits come back\npub proof fn {n}_back(s: Seq<u8>, v: {n}) requires {n}_is(s, v) ensures {n}_bytes(v) == {seq_}\n{{\n  ' + ' '.join(f'{n}_back{i}(s, v);' for i in range(k))
    o += f' assert({n}_bytes(v).len() == {k}); assert({n}_bytes(v) =~= {seq_}); }}\n'
    # ranges
    o += f'pub open spec fn {n}_r0(v: {n}) -> Seq<Rng> {{ Seq::empty() }}\n'
    wf, B, steps = '', 8 * k, []
    facts = []
    for c, (i, m, f, t, sev, text) in enumerate(fs):
        off, ln = (k - 1 - i) * 8 + m.bit_length() - 1, bin(m).count('1')
        a, _, b = text.partition('{}')
        x = lit(text)
        if t != 'bool':
            x = f'v.{f}.shown()'
            if a:
                x = f'Seq::<char>::empty() + {lit(a)} + {x}'
            else:
                x = f'Seq::<char>::empty() + {x}'
            if b:
                x += f' + {lit(b)}'
        g = f'Rng {{ off: {off}, len: {ln}, sev: Severity::{sev}, text: {x} }}'
        q = f'{n}_r{c}(v)'
        o += f'#[verifier::opaque] pub open spec fn {n}_r{c + 1}(v: {n}) -> Seq<Rng> {{ ' + (f'if v.{f} {{ {q}.push({g}) }} else {{ {q} }}' if t == 'bool' else f'{q}.push({g})') + ' }\n'
        L = off - ln + 1
        wf += f'  assert(formed({n}_r{c + 1}(v), {L}, {8 * k})) by {{ reveal({n}_r{c + 1}); formed_push({q}, {B}, {g}, {8 * k}); formed_weaken({q}, {B}, {L}, {8 * k}); }}\n'
        B = L
        steps.append(f'proof {{ assert(rngs(enabled_bits@) == {n}_r{c + 1}(*self)) by {{ reveal({n}_r{c + 1}); }} }}')
        facts.append((m, tz(m), ln))
    o += f'pub open spec fn {n}_ranges(v: {n}) -> Seq<Rng> {{ {n}_r{len(fs)}(v) }}\n'
    o += f'/// what is shown is a diagram of {k} bytes\npub proof fn {n}_formed(v: {n}) ensures formed({n}_ranges(v), 0, {8 * k})\n{{\n  hide(formed);\n  assert(formed({n}_r0(v), {8 * k}, {8 * k})) by {{ reveal(formed); }}\n{wf}  formed_weaken({n}_r{len(fs)}(v), {B}, 0, {8 * k});\n}}\n'
    lz = ' '.join(f'mask_facts_{m:02x}();' for m in dict.fromkeys(m for m, _, _ in facts))
    for m in dict.fromkeys(m for m, _, _ in facts):
        z = tz(m)
        ones = m >> z
        o += (f'pub proof fn mask_facts_{m:02x}() ensures bits::u8_leading_zeros({m:#04x}u8) == {8 - m.bit_length()}, bits::u8_trailing_zeros({m:#04x}u8) == {z}, bits::u8_trailing_ones({ones:#04x}u8) == {bin(m).count("1")}, '
              f'({m:#x}i32 >> {z}i32) == {ones:#x}, ({m:#x}u8 >> {z}u8) == {ones:#x}\n'
              f'{{\n')
        o += f'  let z = bits::u8_leading_zeros({m:#04x}u8) as u8; bits::axiom_u8_leading_zeros({m:#04x}u8); assert(({m:#04x}u8 >> ((8 - z) as u8)) == 0u8 && (({m:#04x}u8 >> ((7 - z) as u8)) & 1u8) != 0u8 && z < 8 ==> z == {8 - m.bit_length()}) by (bit_vector);\n'
        for a, w in ((m, z), (255 - ones, bin(m).count('1'))):
            if a:
                o += f'  let t = bits::u8_trailing_zeros({a:#04x}u8) as u8; bits::axiom_u8_trailing_zeros({a:#04x}u8); assert(({a:#04x}u8 >> t) & 1u8 == 1u8 && ({a:#04x}u8 << ((8 - t) as u8)) == 0u8 && t < 8 ==> t == {w}) by (bit_vector);\n'
            else:
                o += f'  bits::axiom_u8_trailing_zeros({a:#04x}u8);\n'
        o += f'  assert(bits::u8_trailing_ones({ones:#04x}u8) == bits::u8_trailing_zeros({255 - ones:#04x}u8)) by (compute);\n'
        o += f'  assert(({m:#x}i32 >> {z}i32) == {ones:#x}) by (bit_vector); assert(({m:#x}u8 >> {z}u8) == {ones:#x}) by (bit_vector);\n}}\n'
    o += f'impl {n} {{\n  pub const NUM_BYTES: usize = {k};\n'
    o += f'//@@ constfn {p} `impl BitflagValue for {n}` USED_BITS_MASK vx_used_bits {n}.USED_BITS_MASK [' + ', '.join(f'{u:#04x}' for u in U) + ']\n'
    o += f"""//@@ fn {p} `impl TryFrom<&[u8]> for {n}` try_from
//@ key {n}.try_from
//@ params raw_bytes
//@ locals bytes index byte
//@ loops for
//@ lower sig /Self::Error/ => ParseError
//@ lower? body /r#type:/ => kind:
//@ lower? body /Self::USED_BITS_MASK\\[/ => Self::vx_used_bits()[
//@ lower? body /\\bbyte &/ => *byte &
//@ lower? body /<(\\w+)>::try_from/ => \\1::try_from
//@ begin
	{' '.join(f'hide({t}_of);' for t in dict.fromkeys(OPT[t][0] if t in OPT else t for _, _, _, t, _, _ in fs if t in T.ENUMS or t in OPT))}
	proof {{ {n}_masks(); }}
//@ spec
ensures (r is Err) == {n}_bad(raw_bytes@), r is Err ==> r->Err_0 == {n}_err(raw_bytes@), r is Ok ==> {n}_is(raw_bytes@, r->Ok_0)
//@ iter 0 it
//@ loop 0
	invariant raw_bytes@.len() == {k}, {', '.join(f'it.index() > {i} ==> bytes[{i}] == raw_bytes@[{i}] & {U[i]:#04x}u8' for i in range(k))},
//@@ end
//@@ fn {p} `impl BitflagValue for {n}` get_binary_representation
//@ key {n}.get_binary_representation
//@ params self
//@ lower? body /u8::from\\(/ => vx_u8_from(
//@ tail
	proof {{ assert(vx_tail@ =~= {n}_bytes(*self)); }}
//@ spec
ensures r@ == {n}_bytes(*self)
//@@ end
//@@ fn {p} `impl BitflagValue for {n}` get_bit_display_information
//@ key {n}.get_bit_display_information
//@ params self
//@ locals enabled_bits
//@ prints format=
//@ lower? body /\\benabled_bits\\.push\\(/ => vx_push(&mut enabled_bits, 
//@ begin
	proof {{ {lz} }}
//@ spec
ensures rngs(r@) == {n}_ranges(*self), in_order(r@, {8 * k})
//@ tail
	proof {{ {n}_formed(*self); formed_order(vx_tail@, {8 * k}); }}
//@ steps /enabled_bits/
""" + '\n'.join(['proof { assert(rngs(enabled_bits@) =~= ' + n + '_r0(*self)); }'] + steps) + """
//@@ end
}
"""
    return o


BASE = """use vstd::prelude::*;
use vstd::std_specs::bits;
use core::cmp::Ordering;
#[allow(unused_imports)]
use vstd::std_specs::iter::IteratorSpec;
verus! {
global size_of usize == 8;
//@@include show.rs
//@@include text.rs
//@@ item src/error.rs enum ParseError /r#type/ => kind
//@@ item src/main.rs const BITS_PER_BYTE
// u8::from: the code a value is stored as
pub trait VxU8 { spec fn code(&self) -> u8; fn vx_u8(value: Self) -> (r: u8) where Self: Sized ensures r == value.code(); }
impl VxU8 for u8 { open spec fn code(&self) -> u8 { *self } fn vx_u8(value: Self) -> (r: u8) { value } }
pub fn vx_u8_from<T: VxU8>(x: T) -> (r: u8) ensures r == x.code() { T::vx_u8(x) }
"""
RNG = """//@@ item src/emv/bitflag_values.rs struct EnabledBitRange
//@@ item src/emv/bitflag_values.rs enum Severity
pub ghost struct Rng { pub off: int, pub len: int, pub sev: Severity, pub text: Seq<char> }
pub open spec fn rng(x: EnabledBitRange) -> Rng { Rng { off: x.offset as int, len: x.len as int, sev: x.severity, text: x.explanation@ } }
pub open spec fn rngs(b: Seq<EnabledBitRange>) -> Seq<Rng> { Seq::new(b.len(), |i: int| rng(b[i])) }
pub fn vx_push(v: &mut Vec<EnabledBitRange>, x: EnabledBitRange) ensures rngs(final(v)@) == rngs(old(v)@).push(rng(x)) { v.push(x); proof { assert(rngs(v@) =~= rngs(old(v)@).push(rng(x))); } }
/// ranges from the highest bit to the lowest, each within a byte, none overlapping, all of them in the bits lo .. n
pub open spec fn formed(r: Seq<Rng>, lo: int, n: int) -> bool {
  (forall|i: int| 0 <= i < r.len() ==> { let x = #[trigger] r[i]; 1 <= x.len && lo <= x.off - x.len + 1 && x.off < n && (x.off - x.len + 1) / 8 == x.off / 8 })
  && forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[j]).off < (#[trigger] r[i]).off - r[i].len + 1
}
pub proof fn formed_push(r: Seq<Rng>, lo: int, x: Rng, n: int) requires formed(r, lo, n) ensures x.off < lo && lo <= n && 1 <= x.len && 0 <= x.off - x.len + 1 && (x.off - x.len + 1) / 8 == x.off / 8 ==> formed(r.push(x), x.off - x.len + 1, n) {}
//@@include order.rs
/// what display_breakdown asks of the ranges
pub proof fn formed_order(b: Seq<EnabledBitRange>, n: int) requires formed(rngs(b), 0, n) ensures in_order(b, n) {
  assert forall|i: int| 0 <= i < b.len() implies { let r = #[trigger] b[i]; 1 <= r.len && 0 <= low(r) && r.offset < n && low(r) / 8 == r.offset as int / 8 } by { let x = rngs(b)[i]; }
  assert forall|i: int, j: int| 0 <= i < j < b.len() implies (#[trigger] b[j]).offset < low(#[trigger] b[i]) by { let x = rngs(b)[i]; let y = rngs(b)[j]; }
}
pub proof fn formed_weaken(r: Seq<Rng>, a: int, b: int, n: int) requires formed(r, a, n), b <= a ensures formed(r, b, n) {}
"""


def deps(n):
    es = []
    for _, _, _, t, _, _ in T.BITFLAGS[n][1]:
        if t in OPT:
            es += [OPT[t][0], t]
        elif t in T.ENUMS:
            es.append(t)
    return list(dict.fromkeys(es))


def flags_unit(n):
    o = f'// The bitflag value {n} and the code tables of its fields.\n' + BASE + RNG
    for e in deps(n):
        o += optional(e) if e in OPT else enum(e)
    return o + flags(n) + '}\nfn main() {}\n'


def cvmr_unit():
    """CVM results: a CV rule followed by its result"""
    n, p = 'CardholderVerificationMethodResults', 'src/emv/cvm_results.rs'
    R = 'CardholderVerificationRule'
    o = '// CVM results and the CV rule they start with.\n' + BASE + RNG
    for e in deps(R):
        o += optional(e) if e in OPT else enum(e)
    o += enum('CvmResult') + flags(R)
    o += f"""//@@ item {p} struct {n}
pub open spec fn {n}_bad(s: Seq<u8>) -> bool {{ s.len() != 3 || CvmResult_of(s[2]) is None }}
pub open spec fn {n}_err(s: Seq<u8>) -> ParseError {{ if s.len() != 3 {{ ParseError::ByteCountIncorrect {{ kind: Ordering::Equal, expected: 3, found: s.len() as usize }} }} else {{ ParseError::NonCompliant }} }}
/// the value that the bytes stand for
pub open spec fn {n}_is(s: Seq<u8>, v: {n}) -> bool {{ !{n}_bad(s) && {R}_is(s.subrange(0, 2), v.cv_rule) && v.result == CvmResult_of(s[2])->0 }}
/// the used bits come back
pub proof fn {n}_back(s: Seq<u8>, v: {n}) requires {n}_is(s, v) ensures {R}_bytes(v.cv_rule).push(v.result.code()) == seq![s[0] & 0x7f, s[1], s[2]] {{
  {R}_back(s.subrange(0, 2), v.cv_rule); CvmResult_back(s[2]); let x = s[1]; assert(x & 0xff == x) by (bit_vector);
  assert({R}_bytes(v.cv_rule).push(v.result.code()) =~= seq![s[0] & 0x7f, s[1], s[2]]);
}}
pub open spec fn up8(r: Seq<Rng>) -> Seq<Rng> {{ Seq::new(r.len(), |i: int| Rng {{ off: r[i].off + 8, ..r[i] }}) }}
pub open spec fn {n}_ranges(v: {n}) -> Seq<Rng> {{ up8({R}_ranges(v.cv_rule)).push(Rng {{ off: 7, len: 8, sev: if v.result is Failed {{ Severity::Error }} else {{ Severity::Normal }}, text: Seq::<char>::empty() + "Result: "@ + v.result.shown() }}) }}
pub proof fn {n}_formed(v: {n}) ensures formed({n}_ranges(v), 0, 24) {{
  {R}_formed(v.cv_rule); let q = {R}_ranges(v.cv_rule); let r = up8(q);
  assert forall|i: int| 0 <= i < r.len() implies ({{ let x = #[trigger] r[i]; 1 <= x.len && 8 <= x.off - x.len + 1 && x.off < 24 && (x.off - x.len + 1) / 8 == x.off / 8 }}) by {{ let y = q[i]; assert(r[i].off == y.off + 8 && r[i].len == y.len); }}
  assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[j]).off < (#[trigger] r[i]).off - r[i].len + 1 by {{ let y = q[i]; let z = q[j]; }}
  let x = Rng {{ off: 7, len: 8, sev: if v.result is Failed {{ Severity::Error }} else {{ Severity::Normal }}, text: Seq::<char>::empty() + "Result: "@ + v.result.shown() }};
  formed_push(r, 8, x, 24);
}}
pub fn vx_shift(v: &mut Vec<EnabledBitRange>, by: u8)
  requires by == 8, forall|i: int| 0 <= i < old(v)@.len() ==> (#[trigger] old(v)@[i]).offset < 200
  ensures rngs(final(v)@) == up8(rngs(old(v)@))
{{
  for i in 0..v.len()
    invariant by == 8, v@.len() == old(v)@.len(), forall|j: int| 0 <= j < v@.len() ==> (#[trigger] v@[j]) == (if j < i {{ EnabledBitRange {{ offset: (old(v)@[j].offset + 8) as u8, ..old(v)@[j] }} }} else {{ old(v)@[j] }}), forall|i: int| 0 <= i < old(v)@.len() ==> (#[trigger] old(v)@[i]).offset < 200
  {{ v[i].offset += by; }}
  proof {{ assert(rngs(v@) =~= up8(rngs(old(v)@))); }}
}}
impl {n} {{
  pub const NUM_BYTES: usize = 3;
//@@ constfn {p} `impl BitflagValue for {n}` USED_BITS_MASK vx_used_bits {n}.USED_BITS_MASK [0x7f, 0xff, 0xff]
//@@ fn {p} `impl TryFrom<&[u8]> for {n}` try_from
//@ key {n}.try_from
//@ params raw_bytes
//@ locals bytes index byte
//@ loops for
//@ lower sig /Self::Error/ => ParseError
//@ lower? body /r#type:/ => kind:
//@ lower? body /Self::USED_BITS_MASK\\[/ => Self::vx_used_bits()[
//@ lower? body /\\bbyte &/ => *byte &
//@ begin
	hide({R}_is);
	let ghost s = raw_bytes@;
	proof {{ assert(forall|x: u8| x & 0xffu8 == x) by (bit_vector); assert forall|x: u8| #![auto] (x & 0x7fu8) & 0x40u8 == x & 0x40u8 && (x & 0x7fu8) & 0x3fu8 == x & 0x3fu8 by {{ assert((x & 0x7fu8) & 0x40u8 == x & 0x40u8 && (x & 0x7fu8) & 0x3fu8 == x & 0x3fu8) by (bit_vector); }} }}
//@ spec
ensures (r is Err) == {n}_bad(raw_bytes@), r is Err ==> r->Err_0 == {n}_err(raw_bytes@), r is Ok ==> {n}_is(raw_bytes@, r->Ok_0)
//@ iter 0 it
//@ loop 0
	invariant raw_bytes@.len() == 3, bytes@.len() == 3, it.index() > 0 ==> bytes[0] == raw_bytes@[0] & 0x7fu8, it.index() > 1 ==> bytes[1] == raw_bytes@[1] & 0xffu8, it.index() > 2 ==> bytes[2] == raw_bytes@[2] & 0xffu8,
//@ tail
	proof {{ if vx_tail is Ok {{ reveal({R}_is); assert(s.subrange(0, 2)[0] == s[0] && s.subrange(0, 2)[1] == s[1]); }} }}
//@@ end
//@@ fn {p} `impl BitflagValue for {n}` get_binary_representation
//@ key {n}.get_binary_representation
//@ params self
//@ lower? body /(\\w+)\\.extend\\(\\[([^\\]]*)\\]\\)/ => \\1.push(\\2)
//@ spec
ensures r@ == {R}_bytes(self.cv_rule).push(self.result.code())
//@@ end
//@@ fn {p} `impl BitflagValue for {n}` get_bit_display_information
//@ key {n}.get_bit_display_information
//@ params self
//@ locals enabled_bits cv_rule_bits
//@ prints format=
//@ lower? body /Vec::with_capacity\\(\\d+\\)/ => Vec::new()
//@ lower? body /(\\w+)\\.iter_mut\\(\\)\\.for_each\\(\\|(\\w+)\\| \\2\\.offset \\+= (\\w+)\\);/ => vx_shift(&mut \\1, \\3);
//@ lower? body /\\benabled_bits\\.append\\(&mut cv_rule_bits\\);/ => enabled_bits.append(&mut cv_rule_bits); proof {{ assert(rngs(enabled_bits@) =~= up8({R}_ranges(self.cv_rule))); }}
//@ lower? body /\\benabled_bits\\.push\\(/ => vx_push(&mut enabled_bits, 
//@ spec
ensures rngs(r@) == {n}_ranges(*self), in_order(r@, 24)
//@ tail
	proof {{ {n}_formed(*self); formed_order(vx_tail@, 24); }}
//@@ end
}}
"""
    return o + '}\nfn main() {}\n'


def codes_unit():
    o = '// Code tables.\n' + BASE
    for e in T.ENUMS:
        if T.ENUMS[e][0] == 'u8' and e != 'TagClass':
            o += enum(e)
    for e in OPT:
        o += optional(e)
    return o + '}\nfn main() {}\n'


OUT = BASE.replace('//@@include show.rs\n', '//@@include out.rs\n').replace('verus! {', 'verus! {', 1)
SLICE = r'''//@ lower? sig /Self::Error/ => ParseError
//@ lower? body /r#type/ => kind
//@ lower? body /\bconst (\w+): usize = (\d+);/ => let \1: usize = \2;
'''
# what display_breakdown writes: `_` and `stdout` are the same standard output
SHOWN = '''//@ prints print=stdout
//@ lower? sig /_vx_unused0: &mut StandardStream/ => stdout: &mut StandardStream
'''


def wrong_count(want, kind='Equal', v='raw_bytes'):
    return f'ParseError::ByteCountIncorrect {{ kind: Ordering::{kind}, expected: {want}, found: {v}@.len() as usize }}'


def onebyte_unit():
    o = '// C13: the values of one byte.\n' + OUT
    for e in ('TransactionType', 'TerminalType', 'PosEntryMode'):
        err = T.ENUMS[e][1]
        o += enum(e) + f'''impl {e} {{
//@@ fn src/{WHERE[e]}.rs `impl TryFrom<&[u8]> for {e}` try_from as from_bytes
//@ key {e}.from_bytes
//@ params raw_bytes
{SLICE}//@ spec
ensures r == (if raw_bytes@.len() != 1 {{ Err::<{e}, ParseError>({wrong_count(1)}) }} else {{ match {e}_of(raw_bytes@[0]) {{ Some(v) => Ok::<{e}, ParseError>(v), None => Err(ParseError::{err}) }} }})
//@@ end
//@@ fn src/{WHERE[e]}.rs `impl DisplayBreakdown for {e}` display_breakdown
//@ key {e}.display_breakdown
{SHOWN}//@ spec
ensures final(stdout)@ == old(stdout)@ + tabs(indentation as int) + tx({e}_text(*self)) + tx("\\n"@)
//@@ end
}}
'''
    return o + '}\nfn main() {}\n'


# texts of byte strings, and equality of texts
TEXTS = """#[allow(unused_imports)] use vstd::utf8::*;
#[verifier::external_body] pub fn vx_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] pub struct Utf8Error { p: u8 }
// std::str::from_utf8
#[verifier::external_body] pub fn vx_from_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>) ensures (r is Ok) == valid_utf8(b@), r is Ok ==> r->Ok_0@ == decode_utf8(b@) { unimplemented!() }
"""


def arc_unit():
    e = 'AuthorisationResponseCode'
    _, err, vs = T.ENUMS[e]
    o = '// C13: authorisation response codes.\n' + OUT + TEXTS
    o += f'//@@ item {at(e)} enum {e}\nimpl Copy for {e} {{}}\nimpl Clone for {e} {{ fn clone(&self) -> (r: Self) ensures r == *self {{ *self }} }}\n'
    o += f'/// the entry of a two-character code\npub open spec fn {e}_of(x: Seq<char>) -> Option<{e}> {{\n'
    for v, vals, _ in vs:
        o += '  if ' + ' || '.join(f'x == {lit(y)}' for y in vals) + f' {{ Some({e}::{v}) }} else\n'
    o += '  { None }\n}\n'
    o += f'pub open spec fn {e}_text(v: {e}) -> Seq<char> {{ match v {{ ' + ', '.join(f'{e}::{v} => {lit(t)}' for v, _, t in vs) + ' } }\n'
    o += f"""pub open spec fn entry(x: Seq<char>) -> Result<{e}, ParseError> {{ match {e}_of(x) {{ Some(v) => Ok(v), None => Err(ParseError::{err}) }} }}
impl VxShow for {e} {{ open spec fn shown(&self) -> Seq<char> {{ {e}_text(*self) }} }}
/// two ASCII characters are the text of that code
pub proof fn ascii(b: Seq<u8>) requires b.len() == 2, b[0] < 128, b[1] < 128 ensures valid_utf8(b), decode_utf8(b) == seq![b[0] as char, b[1] as char] {{
  let t = seq![b[0] as char, b[1] as char]; assert(is_ascii_chars(t)); is_ascii_chars_encode_utf8(t); encode_utf8_decode_utf8(t); encode_utf8_valid_utf8(t); assert(encode_utf8(t) =~= b);
}}
impl {e} {{
//@@ fn {at(e)} `impl TryFrom<&str> for {e}` try_from
//@ key {e}.try_from
//@ params value
//@ strmatch
//@ spec
ensures r == entry(value@)
//@@ end
//@@ fn src/{WHERE[e]}.rs `impl TryFrom<&[u8]> for {e}` try_from as from_bytes
//@ key {e}.from_bytes
//@ params raw_bytes
//@ results map_err and_then map
//@ lower? body /\\bstr_from_utf8\\(/ => vx_from_utf8(
{SLICE}//@ spec
ensures r == (if raw_bytes@.len() != 2 {{ Err::<{e}, ParseError>({wrong_count(2)}) }} else if !valid_utf8(raw_bytes@) {{ Err::<{e}, ParseError>(ParseError::InvalidNumber) }} else {{ entry(decode_utf8(raw_bytes@)) }})
//@@ end
//@@ fn {at(e)} `impl std::fmt::Display for {e}` fmt
//@ key {e}.fmt
//@ params self f
//@ lower sig /std::fmt::Formatter<'_>/ => VxText
//@ lower sig /std::fmt::Result/ => Result<(), VxFmtError>
//@ spec
ensures final(f)@ == old(f)@ + self.shown(), r is Ok
//@@ end
//@@ fn src/{WHERE[e]}.rs `impl DisplayBreakdown for {e}` display_breakdown
//@ key {e}.display_breakdown
{SHOWN}//@ spec
ensures final(stdout)@ == old(stdout)@ + tabs(indentation as int) + tx({e}_text(*self)) + tx("\\n"@)
//@@ end
}}
"""
    return o + '}\nfn main() {}\n'


def table(e):
    """a code table's entries and texts, without the contracts of its functions (discharged in the unit `codes`)"""
    t = enum(e)
    o = t[:t.index(f'impl {e} {{')]
    if e in REPR:
        i = t.index(f'impl VxU8 for {e}')
        o += t[i:t.index('\n', t.index('open spec fn code', i))] + ' fn vx_u8(value: Self) -> (r: u8) { unimplemented!() }\n}\n'.replace('fn vx_u8', '#[verifier::external_body] fn vx_u8')
    return o + f'impl VxShow for {e} {{ open spec fn shown(&self) -> Seq<char> {{ {e}_text(*self) }} }}\n'


def value(n):
    """a bitflag value and what its bytes stand for; its functions are discharged in the unit flags_*"""
    o = ''
    for e in deps(n):
        if e in OPT:
            t = optional(e)
            i = t.index('impl VxShow')
            o += t[:t.index(f'impl {e} {{')] + t[i:t.index('\n', i) + 1]
        else:
            o += table(e)
    f = flags(n)
    o += f[:f.index(f'pub open spec fn {n}_bytes')]
    return o + f"""/// its diagram (contract of display_breakdown discharged in the unit `diagram`)
pub uninterp spec fn {n}_diagram(s: Seq<Ev>, v: {n}, ind: int, colours: bool) -> Seq<Ev>;
impl {n} {{
  pub const NUM_BYTES: usize = {T.BITFLAGS[n][0]};
//@@ contract flags_{SHORT[n]} {n}.try_from
  #[verifier::external_body] pub fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, colours: bool) ensures final(stdout)@ == {n}_diagram(old(stdout)@, *self, indentation as int, colours) {{ unimplemented!() }}
}}
"""


SLICES = """// core: a[lo..hi]
#[verifier::external_body] pub fn vx_range(b: &[u8], lo: usize, hi: usize) -> (r: &[u8]) requires lo <= hi <= b@.len() ensures r@ == b@.subrange(lo as int, hi as int) { &b[lo..hi] }
"""


DEBUG = 'impl core::fmt::Debug for ParseError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<\'_>) -> core::fmt::Result { unimplemented!() } }\n'


def iad_unit():
    o = '// C15: issuer application data.\n' + OUT + '//@@include bytes.rs\n' + SLICES + value('CommonCoreIdentifier') + value('CardVerificationResults')
    return o + """//@@include iad.rs
}
fn main() {}
"""


def cvmlist_unit():
    return '// C14: CVM lists.\n' + OUT + '//@@include bytes.rs\n//@@include be.rs\n' + SLICES + value('CardholderVerificationRule') + """//@@include cvmlist.rs
}
fn main() {}
"""


def basic_unit():
    return '// Tags: class, type, name.\n' + OUT + DEBUG + '//@@include bytes.rs\n' + enum('TagClass') + '''//@@include basic.rs
}
fn main() {}
'''


IACS = {'IssuerActionCodeDefault': ('default', 0xff), 'IssuerActionCodeDenial': ('denial', 0), 'IssuerActionCodeOnline': ('online', 0xff)}


def iac_unit():
    import oracle as O
    V = 'TerminalVerificationResults'
    o = '// C22: issuer action codes.\n' + OUT + DEBUG + value(V)
    for n, (f, b) in IACS.items():
        p = f'src/emv/iac/{f}.rs'
        o += f"""//@@ item {p} struct {n}
impl {n} {{
//@@ fn {p} `impl Default for {n}` default
//@ key {n}.default
//@ lower? body /\\.as_slice\\(\\)/ => .as_slice()
//@ spec
ensures {V}_is(seq![{", ".join([f"{b:#04x}u8"] * 5)}], r.tvr)
//@@ end
//@@ fn {p} `impl TryFrom<&[u8]> for {n}` try_from
//@ key {n}.try_from
//@ params raw_bytes
//@ results map
//@ lower? sig /Self::Error/ => ParseError
//@ spec
ensures (r is Err) == {V}_bad(raw_bytes@), r is Err ==> r->Err_0 == {V}_err(raw_bytes@), r is Ok ==> {V}_is(raw_bytes@, r->Ok_0.tvr)
//@@ end
//@@ fn {p} `impl DisplayBreakdown for {n}` display_breakdown
//@ key {n}.display_breakdown
{SHOWN}//@ spec
ensures final(stdout)@ == {V}_diagram(headln(old(stdout)@ + tabs(indentation as int), {lit(O.IAC[n])}), self.tvr, indentation as int, false)
//@@ end
}}
"""
    return o + '}\nfn main() {}\n'


SHORT = {'TerminalVerificationResults': 'tvr', 'TransactionStatusInformation': 'tsi', 'CommonCoreIdentifier': 'cci', 'CardVerificationResults': 'cvr',
         'AdditionalTerminalCapabilities': 'atc', 'TerminalCapabilities': 'tc', 'CardholderVerificationRule': 'rule'}
UNITS = {'flags_' + SHORT[n]: (lambda n: lambda: flags_unit(n))(n) for n in T.BITFLAGS}
UNITS['codes'] = codes_unit
UNITS['onebyte'] = onebyte_unit
UNITS['arc'] = arc_unit
UNITS['iad'] = iad_unit
UNITS['basic'] = basic_unit
UNITS['iac'] = iac_unit
UNITS['cvmlist'] = cvmlist_unit
UNITS['flags_cvmr'] = cvmr_unit

COMMANDS = {'tvr': 'TerminalVerificationResults', 'ccd-iad': 'IssuerApplicationData', 'ccd-cvr': 'CardVerificationResults', 'tsi': 'TransactionStatusInformation',
            'cvm-results': 'CardholderVerificationMethodResults', 'cvm-list': 'CardholderVerificationMethodList', 'identify': 'TagBasicInfo'}


def command_types():
    o = ''
    for t in COMMANDS.values():
        o += f'''#[verifier::external_body] pub struct {t} {{ p: u8 }}
impl {t} {{
  #[verifier::external_body] pub fn try_from(b: &[u8]) -> (r: Result<{t}, ParseError>) ensures r == value_of::<{t}>(b@) {{ unimplemented!() }}
  #[verifier::external_body] pub fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, colours: bool) ensures final(stdout)@ == report(old(stdout)@, *self, indentation as int, colours) {{ unimplemented!() }}
}}
'''
    ids = list(COMMANDS) + ['auto-tlv', 'ber-tlv', 'ingenico-tlv', 'service-code']
    o += 'pub open spec fn commands() -> Seq<Seq<char>> { seq![' + ', '.join(f'"{i}"@' for i in ids) + '] }\n'
    return o


def command_outcomes():
    return '  ' + '\n  else '.join(f'if asked(m, "{i}"@) is Some {{ (out, e) == shown(s, value_of::<{t}>(hex_bytes_of(t("{i}"@)))) }}' for i, t in COMMANDS.items())


def error_texts():
    import oracle as O
    k = ', '.join(f'Ordering::{a} => {lit(t)}' for a, t in O.KIND.items())
    o = f'pub open spec fn kind_text(k: Ordering) -> Seq<char> {{ match k {{ {k} }} }}\n'
    o += 'pub open spec fn error_text(e: ParseError) -> Seq<char> { match e {\n  ParseError::ByteCountIncorrect { kind, expected, found } => '
    o += lit('The wrong number of bytes were provided for the value. Perhaps you provided the wrong value? Expected: ') + f' + kind_text(kind) + {lit(" ")} + dec(expected as nat) + {lit(", Found: ")} + dec(found as nat),\n'
    return o + ''.join(f'  ParseError::{v} => {lit(t)},\n' for v, t in O.MESSAGE.items()) + '} }\n'


def apart_commands():
    ids = list(COMMANDS) + ['auto-tlv', 'ber-tlv', 'ingenico-tlv', 'service-code']
    pairs = [f'(asked(m, "{a}"@) is None || asked(m, "{b}"@) is None)' for i, a in enumerate(ids) for b in ids[i + 1:]]
    o = 'pub proof fn apart(m: ArgMatches) requires one_command(m) ensures ' + ', '.join(pairs) + '\n{\n'
    o += ' '.join(f'assert(commands()[{i}] == "{a}"@);' for i, a in enumerate(ids))
    return o + '\n}\n'


def base():
    return BASE


def out():
    return OUT


def texts():
    return TEXTS


def digit_enums():
    return ''.join(enum(e) for e in ('Interchange', 'Technology', 'AuthorisationProcessing', 'AllowedServices', 'PinRequirements'))


GEN = {'base': base, 'out': out, 'texts': texts, 'digit_enums': digit_enums, 'error_texts': error_texts, 'apart_commands': apart_commands, 'command_types': command_types, 'command_outcomes': command_outcomes, 'tag_names': tag_names, 'decoders': decoders}
