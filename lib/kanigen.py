"""Kani harness sources: fixed ones in spec/kani/*.rs and ones written from the
oracle tables (spec/tables.py). A harness states a function's contract: symbolic
arguments, the precondition as an assumption, the postcondition as assertions."""
import os, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f'{VERIF}/spec')
import tables as T


def rs(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def tz(m):
    return (m & -m).bit_length() - 1


PATH = {'CardVerificationResults': 'crate::emv::ccd::', 'CommonCoreIdentifier': 'crate::emv::ccd::', 'FormatCode': 'crate::emv::ccd::',
        'CryptogramVersion': 'crate::emv::ccd::', 'GenAc1ApplicationCryptogramType': 'crate::emv::ccd::', 'GenAc2ApplicationCryptogramType': 'crate::emv::ccd::',
        'Interchange': 'crate::non_emv::', 'Technology': 'crate::non_emv::', 'AuthorisationProcessing': 'crate::non_emv::',
        'AllowedServices': 'crate::non_emv::', 'PinRequirements': 'crate::non_emv::', 'ServiceCode': 'crate::non_emv::',
        'IssuerApplicationData': 'crate::emv::ccd::'}


def path(n):
    return PATH.get(n, 'crate::emv::') + n


def pick(en, x, err='None'):
    """Rust expression: Option of the variant that the table gives for x"""
    typ, error, vs = T.ENUMS[en]
    arms, wild = '', 'None'
    for v, vals, _ in vs:
        if vals is None:
            wild = f'Some({path(en)}::{v})'
        else:
            pats = ' | '.join(rs(y) if typ == '&str' else '%#04x' % y for y in vals)
            arms += f'{pats} => Some({path(en)}::{v}), '
    return f'match {x} {{ {arms}_ => {wild} }}'


def mask_of(name):
    n, fs = T.BITFLAGS[name]
    m = [0] * n
    for i, b, *_ in fs:
        m[i] |= b
    return m


def field_checks(name, s='s', v='v'):
    out = ''
    for i, m, f, t, _, _ in T.BITFLAGS[name][1]:
        raw = f'({s}[{i}] & {m:#04x})' + (f' >> {tz(m)}' if tz(m) else '')
        if t == 'bool':
            out += f'\tassert!({v}.{f} == ({s}[{i}] & {m:#04x} != 0), "{f} is bit {tz(m) + 1} of byte {i + 1}");\n'
        elif t == 'u8':
            out += f'\tassert!({v}.{f} == {raw}, "{f}");\n'
        elif t.startswith('Optional'):
            e = {'OptionalCvMethod': 'CvMethod', 'OptionalCvmCondition': 'CvmCondition'}[t]
            out += f'\tassert!({v}.{f}.internal == {pick(e, raw)}, "{f}");\n'
        else:
            out += f'\tassert!(Some({v}.{f}) == {pick(t, raw)}, "{f}");\n'
    return out


def fallible(name):
    """(condition that some code is not in its table, its error) in field order"""
    out = []
    for i, m, f, t, _, _ in T.BITFLAGS[name][1]:
        if t in T.ENUMS:
            raw = f'(s[{i}] & {m:#04x})' + (f' >> {tz(m)}' if tz(m) else '')
            if all(x[1] is not None for x in T.ENUMS[t][2]) and len({y for x in T.ENUMS[t][2] for y in x[1]}) < 2 ** bin(m).count('1'):
                out.append((f'({pick(t, raw)}).is_none()', T.ENUMS[t][1]))
    return out


def bits_decode(name):
    n, fs = T.BITFLAGS[name]
    bad = fallible(name)
    body = f'''#[kani::proof]
#[kani::unwind({n + 2})]
fn {name.lower()}_decode() {{
	let s = any_slice();
	let r = {path(name)}::try_from(s);
	if s.len() != {n} {{
		assert!(r == Err(ParseError::ByteCountIncorrect {{ r#type: Ordering::Equal, expected: {n}, found: s.len() }}), "only {n} bytes are accepted");
		return;
	}}
'''
    for c, e in bad:
        body += f'\tif {c} {{\n\t\tassert!(r == Err(ParseError::{e}), "a code outside the table is an error");\n\t\treturn;\n\t}}\n'
    body += '\tlet v = match r { Ok(v) => v, Err(_) => { assert!(false, "a valid value is accepted"); return; } };\n' + field_checks(name)
    m = mask_of(name)
    body += '\tlet b = v.get_binary_representation();\n' + f'\tassert!(b.len() == {n}, "the representation has {n} bytes");\n'
    for i in range(n):
        body += f'\tassert!(b[{i}] == s[{i}] & {m[i]:#04x}, "byte {i + 1} is represented by its used bits");\n'
    return body + '}\n'


def bits_ranges(name):
    n, fs = T.BITFLAGS[name]
    out = f'''#[kani::proof]
#[kani::stub(alloc::fmt::format, no_format)]
#[kani::unwind({max(n + 2, len(fs) + 2, 100)})]
fn {name.lower()}_ranges() {{
	let s: [u8; {n}] = kani::any();
	let v = match {path(name)}::try_from(&s[..]) {{ Ok(v) => v, Err(_) => return }};
	let b = v.get_bit_display_information();
	let mut k = 0;
'''
    for i, m, f, t, sev, text in fs:
        off = (n - 1 - i) * 8 + m.bit_length() - 1
        ln = bin(m).count('1')
        chk = f'assert!(k < b.len() && b[k].offset == {off} && b[k].len == {ln} && b[k].severity == Severity::{sev}, "{f}");'
        if '{}' not in text:
            chk += f' assert!(b[k].explanation == {rs(text)}, "text of {f}");'
        if t == 'bool':
            out += f'\tif s[{i}] & {m:#04x} != 0 {{ {chk} k += 1; }}\n'
        else:
            out += f'\t{chk} k += 1;\n'
    return out + '\tassert!(k == b.len(), "nothing else is shown");\n}\n'


def enums_of(names):
    out = ''
    for e in names:
        typ, error, vs = T.ENUMS[e]
        if typ == '&str':
            continue
        if error is None:
            out += f'''#[kani::proof]
fn {e.lower()}_code() {{
	let x: u8 = kani::any();
	assert!(Some({path(e)}::from(x)) == {pick(e, 'x')}, "the code table of {e}");
}}
'''
        else:
            out += f'''#[kani::proof]
fn {e.lower()}_code() {{
	let x: u8 = kani::any();
	match {pick(e, 'x')} {{
		Some(v) => assert!({path(e)}::try_from(x) == Ok(v), "a code of {e} decodes to its entry"),
		None => assert!({path(e)}::try_from(x) == Err(ParseError::{error}), "a code outside {e} is an error"),
	}}
}}
'''
    return out


GEN = {}
for _n in T.BITFLAGS:
    GEN[f'decode:{_n}'] = (lambda n: lambda th: bits_decode(n))(_n)
    GEN[f'ranges:{_n}'] = (lambda n: lambda th: bits_ranges(n))(_n)
def arc_codes():
    vs = T.ENUMS['AuthorisationResponseCode'][2]
    arms = ''.join(' | '.join('(%#04x, %#04x)' % tuple(y.encode()) for y in vals) + f' => Some({path("AuthorisationResponseCode")}::{v}), ' for v, vals, _ in vs)
    return f'''#[kani::proof]
#[kani::unwind(4)]
fn authorisation_response_code_code() {{
	let s = any_slice();
	let r = AuthorisationResponseCode::try_from(unsafe {{ std::str::from_utf8_unchecked(s) }});
	let w = if s.len() == 2 {{ match (s[0], s[1]) {{ {arms}_ => None }} }} else {{ None }};
	match w {{
		Some(v) => assert!(r == Ok(v), "a listed code decodes to its entry"),
		None => assert!(r == Err(ParseError::{T.ENUMS['AuthorisationResponseCode'][1]}), "any other text is an error"),
	}}
}}
'''


def bl(h):
    return '[' + ', '.join('0x' + h[i:i + 2] for i in range(0, len(h), 2)) + ']'


def identify():
    """a tag of the list: its name (the tag is concrete); any other slice of any
    length: no name"""
    out = '''#[kani::proof]
fn identify_tag_unlisted() {
	let s = any_slice();
	let listed = match s {
''' + '\t\t' + ' | '.join(bl(t) for t in T.TAGS) + ''' => true,
		_ => false,
	};
	assert!(identify_tag(s).is_some() == listed, "exactly the listed tags have a name");
}
'''
    tags = list(T.TAGS.items())
    for k in range(0, len(tags), 16):
        out += f'#[kani::proof]\n#[kani::unwind(80)]\nfn identify_tag_listed_{k // 16 + 1}() {{\n'
        for t, n in tags[k:k + 16]:
            out += f'\tassert!(identify_tag(&{bl(t)}) == Some({rs(n)}), "the name of {t}");\n'
        out += '}\n'
    out += '''#[kani::proof]
#[kani::unwind(80)]
fn tag_basic_info_decode() {
	let s = any_slice();
	let r = TagBasicInfo::try_from(s);
	if s.is_empty() {
		assert!(matches!(r, Err(ParseError::ByteCountIncorrect { r#type: Ordering::Greater, expected: 1, found: 0 })), "no tag is an error");
		return;
	}
	let v = match r { Ok(v) => v, Err(_) => { assert!(false, "a tag is accepted"); return; } };
	let (c, d) = ber_tlv::parse_tag_metadata(s[0]);
	assert!(v.class == c && v.data_object_type == d, "class and type of the first byte");
	assert!(v.tag.len() == s.len(), "the tag is kept");
	let i: usize = kani::any();
	kani::assume(i < s.len());
	assert!(v.tag[i] == s[i], "the tag is kept");
	let n = identify_tag(s);
	assert!(v.name.map(|x| x.as_ptr()) == n.map(|x| x.as_ptr()) && v.name.map(|x| x.len()) == n.map(|x| x.len()), "the tag's name");
	std::mem::forget(v);
}
'''
    return out


GEN['identify'] = lambda th: identify()
GEN['arc_codes'] = lambda th: arc_codes()
GEN['codes'] = lambda th: enums_of(list(T.ENUMS))


def source(parts, thorough=False):
    out = ''
    for p in parts:
        if p in GEN:
            out += GEN[p](thorough)
        else:
            out += open(f'{VERIF}/spec/kani/{p}.rs').read()
    return out
