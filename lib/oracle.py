"""Reference behaviour, written from the properties (not from the code): used to
search for and confirm concrete counterexamples, and as the oracle of the
bounded stand-ins. Tables come from spec/tables.py."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec'))
from tables import BITFLAGS, ENUMS, TAGS

DEPTH = 250
CLASS = ['Universal', 'Application', 'ContextSpecific', 'Private']
CLASS_TEXT = ['Universal', 'Application', 'Context-Specific', 'Private']
NC, UNS, UNR = 'NonCompliant', 'Unsupported', 'Unrecognised'


class Err(Exception):
    """A decoding error; args[0] is the kind (and its data)."""


def bytecount(kind, expected, found):
    return Err('ByteCountIncorrect { type: %s, expected: %d, found: %d }' % (kind, expected, found))


# ---------------------------------------------------------------- text
HEX = {c: i for i, c in enumerate('0123456789')}
HEX.update({c: 10 + i for i, c in enumerate('abcdef')})
HEX.update({c: 10 + i for i, c in enumerate('ABCDEF')})


def hex_lenient(s):
    d = [HEX[c] for c in s if c in HEX]
    return bytes(d[i] << 4 | d[i + 1] for i in range(0, len(d) - 1, 2))


def hex_strict(s):
    if any(c not in HEX for c in s):
        raise Err('InvalidBytes')
    return hex_lenient(s)


def hexs(b):
    return b.hex().upper()


def u16_text(s):
    # Rust: str::trim, then u16::from_str (an optional '+', then decimal digits)
    t = s.strip(WS)
    u = t[1:] if t.startswith('+') else t
    if not u or any(c not in '0123456789' for c in u) or int(u) > 65535:
        raise Err('InvalidNumber')
    return int(u)


WS = '\t\n\x0b\x0c\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'


# ---------------------------------------------------------------- masking
def masked_bytes(b, masks):
    return len(b) >= 2 and any(all(x == ord(m) for x in b) for m in masks)


def masked_text(s, masks):
    return len(s.encode()) >= 2 and any(all(c == m for c in s) for m in masks)


# ---------------------------------------------------------------- raw decoding
class Node:
    __slots__ = ('tag', 'cls', 'cons', 'data', 'kids', 'proc')

    def __init__(self, tag, data, masks, depth):
        self.tag, self.data = tag, data
        self.cls, self.cons = tag[0] >> 6, tag[0] >> 5 & 1
        self.kids = []
        if self.cons and data is not None and depth < DEPTH:
            try:
                self.kids = ber(data, masks, depth + 1)
            except Err:
                pass


def ber(b, masks, depth=0):
    nodes, i, n = [], 0, len(b)
    while i < n:
        s = i
        i += 1
        if b[s] & 0x1F == 0x1F:
            while True:
                if i >= n:
                    raise Err(NC)
                i += 1
                if b[i - 1] < 0x80:
                    break
        tag = b[s:i]
        if i >= n:
            raise Err(NC)
        ln = b[i]
        i += 1
        if ln >= 0x80:
            k = ln - 0x80
            if k > 4:
                raise Err(UNS)
            if i + k > n:
                raise Err(NC)
            ln = int.from_bytes(b[i:i + k], 'big')
            i += k
        if i + ln > n:
            raise Err(NC)
        v = b[i:i + ln]
        i += ln
        nodes.append(Node(tag, None if masked_bytes(v, masks) else v, masks, depth))
    return nodes


def ingenico(s, masks):
    """type, tag in hex, ':', length in hex, ':', 'a' or 'h', data, any separator"""
    if not s.isascii():
        raise Err(NC)
    nodes, i, n = [], 0, len(s)

    def strict(t):
        try:
            return hex_strict(t)
        except Err:
            raise Err(NC)
    while i < n:
        typ = s[i]
        i += 1
        c = s.find(':', i)
        if c < 0:
            raise Err(NC)
        tag = strict(s[i:c])
        while len(tag) > 1 and tag[0] == 0:
            tag = tag[1:]
        i = c + 1
        if not tag or i >= n:
            raise Err(NC)
        c = s.find(':', i)
        if c < 0:
            raise Err(NC)
        lb = strict(s[i:c])
        if len(lb) > 4:
            raise Err(UNS)
        ln = int.from_bytes(lb, 'big')
        i = c + 1
        if i >= n:
            raise Err(NC)
        fmt = s[i]
        i += 1
        if fmt not in 'ah':
            raise Err(NC)
        w = ln if fmt == 'a' else 2 * ln
        if i + w > n:
            raise Err(NC)
        t = s[i:i + w]
        i += w + 1
        if masked_text(t, masks):
            data = None
        elif fmt == 'a':
            data = t.encode()
        else:
            data = strict(t)
        if typ == 'T':
            nodes.append(Node(tag, data, masks, 0))
    return nodes


def auto(s, masks):
    if s == '':
        raise Err(UNR)
    try:
        return 'ING', ingenico(s, masks)
    except Err:
        pass
    try:
        return 'BER', ber(hex_lenient(s), masks)
    except Err:
        raise Err(UNR)


def raw_text(nodes, kids=True):
    out = ['[']
    for x in nodes:
        out.append(hexs(x.tag) + 'UASP'[x.cls] + 'pc'[x.cons] + ('*' if x.data is None else hexs(x.data)))
        out.append(raw_text(x.kids))
    return ''.join(out) + ']'


# ---------------------------------------------------------------- values
def enum_variant(name, v):
    """(variant, text); raises Err if v is not in the table"""
    typ, err, vs = ENUMS[name]
    for var, vals, text in vs:
        if vals is None or v in vals:
            return var, text
    raise Err(err)


SEV = {'Normal': None, 'Warning': 33, 'Error': 31}


class Bits:
    """A bit-flag value: kept bits and the enabled ranges (offset of the highest
    bit from the least significant bit of the value, width, severity, text)."""

    def __init__(self, n, binary, ranges):
        self.n, self.binary, self.ranges = n, binary, ranges


def fields(name, b):
    n, fl = BITFLAGS[name]
    if len(b) != n:
        raise bytecount('Equal', n, len(b))
    binary = bytearray(n)
    ranges = []
    for (byte, mask, f, typ, sev, text) in fl:
        low = (mask & -mask).bit_length() - 1
        v = (b[byte] & mask) >> low
        binary[byte] |= b[byte] & mask
        off = mask.bit_length() - 1 + 8 * (n - 1 - byte)
        width = bin(mask).count('1')
        if typ == 'bool':
            if v:
                ranges.append((off, width, sev, text))
            continue
        if typ == 'u8':
            t = str(v)
        elif typ == 'OptionalCvMethod':
            try:
                t = enum_variant('CvMethod', v)[1]
            except Err:
                t = 'Unknown (likely issuer or payment system-specific)'
        elif typ == 'OptionalCvmCondition':
            try:
                t = enum_variant('CvmCondition', v)[1]
            except Err:
                t = 'Unknown (likely payment system-specific)'
        else:
            t = enum_variant(typ, v)[1]
        ranges.append((off, width, sev, text.replace('{}', t)))
    return Bits(n, bytes(binary), ranges)


def cvm_results(b):
    if len(b) != 3:
        raise bytecount('Equal', 3, len(b))
    rule = fields('CardholderVerificationRule', b[:2])
    var, text = enum_variant('CvmResult', b[2])
    return Bits(3, rule.binary + b[2:], [(o + 8, w, s, t) for (o, w, s, t) in rule.ranges] +
                [(7, 8, 'Error' if var == 'Failed' else 'Normal', 'Result: ' + text)])


def bits_of(name, b):
    return cvm_results(b) if name == 'CardholderVerificationMethodResults' else fields(name, b)


# ---------------------------------------------------------------- display
class Out:
    def __init__(self, colour):
        self.colour, self.p = colour, []

    def w(self, s):
        self.p.append(s)

    def ind(self, n):
        self.p.append('\t' * n)

    def set(self, bold=False, fg=None):
        if self.colour:
            self.p.append('\x1b[0m' + ('\x1b[1m' if bold else '') + ('\x1b[%dm' % fg if fg else ''))

    def reset(self):
        if self.colour:
            self.p.append('\x1b[0m')

    def header(self, s):
        self.set(True, 36)
        self.w(s)
        self.reset()

    def headerln(self, s):
        self.header(s + '\n')

    def text(self):
        return ''.join(self.p)


def dump(b, per, ind):
    return ''.join('\t' * ind + b[i:i + per].hex(' ').upper() + '\n' for i in range(0, len(b), per))


def dump_pretty(b, per, ind):
    out = []
    for i in range(0, len(b), per):
        l = b[i:i + per]
        out.append('\t' * ind + l.hex(' ').upper() + '   ' * (per - len(l)) + '  ' +
                   ''.join(chr(x) if 0x20 <= x <= 0x7E else '.' for x in l) + '\n')
    return ''.join(out)


def show_bits(o, v, ind, sevcol):
    """The value in binary, then one line per enabled range, lowest first, each
    hanging from the column of the range's highest bit."""
    nb = v.n * 8
    col = lambda off: (nb - 1 - off) + (nb - 1 - off) // 8   # a space after every 8 bits
    o.ind(ind)
    o.set(True)
    o.w(' '.join('{:08b}'.format(x) for x in v.binary) + '\n')
    o.reset()
    if any(w > 1 for (_, w, _, _) in v.ranges):
        line = {}
        for (off, w, _, _) in v.ranges:
            if w > 1:
                a, z = col(off), col(off) + w - 1   # within one byte
                for c in range(a, z):
                    line[c] = '\u2500'
                line[a], line[z] = '\u251c', '\u2518'
            else:
                line[col(off)] = '\u2502'
        o.ind(ind)
        o.w(''.join(line.get(c, ' ') for c in range(max(line) + 1)) + '\n')
    for i in range(len(v.ranges) - 1, -1, -1):
        off, w, sev, text = v.ranges[i]
        o.ind(ind)
        line = [' '] * col(off)
        for (p, _, _, _) in v.ranges[:i]:
            line[col(p)] = '\u2502'
        o.w(''.join(line) + '\u2514 ')
        o.set(False, SEV[sev] if sevcol else None)
        o.w(text + '\n')
        o.reset()


def show_cvm_list(o, b, ind):
    if len(b) < 8:
        raise bytecount('Greater', 8, len(b))
    if len(b) % 2:
        raise Err('ByteCountNotDivisibleIntoComponents')
    x, y = int.from_bytes(b[:4], 'big'), int.from_bytes(b[4:8], 'big')
    rules = [b[i:i + 2] for i in range(8, len(b), 2)]
    if x or y or any(6 <= r[1] <= 9 for r in rules):
        w = max(3, len(str(x)), len(str(y)))
        o.ind(ind)
        o.header('X Value:')
        o.w(' %s (implicit decimal point based on application currency)\n' % str(x).zfill(w))
        o.ind(ind)
        o.header('Y Value:')
        o.w(' %s\n' % str(y).zfill(w))
    o.ind(ind)
    o.headerln('Cardholder Verification Rules:')
    for i, r in enumerate(rules):
        v = fields('CardholderVerificationRule', r)
        get = lambda p: next(t[len(p):] for (_, _, _, t) in v.ranges if t.startswith(p))
        o.ind(ind)
        o.set(True)
        o.w('CVM %d:\n' % (i + 1))
        o.reset()
        for k, t in (('Method:         ', get('Method: ')), ('Condition:      ', get('Condition: ')),
                     ('If Unsuccessful:', 'Next CVM' if r[0] & 0x40 else 'Fail')):
            o.ind(ind + 1)
            o.set(True)
            o.w(k)
            o.reset()
            o.w(' %s\n' % t)


def show_iad(o, b, ind, sevcol):
    if len(b) != 32 or b[0] != 15 or b[16] != 15:
        raise Err('NonCcdCompliant')
    cci = fields('CommonCoreIdentifier', b[1:2])
    cvr = fields('CardVerificationResults', b[3:8])
    o.ind(ind)
    o.headerln('Common Core Identifier:')
    show_bits(o, cci, ind + 1, sevcol)
    o.ind(ind)
    o.header('Derivation Key Index:')
    o.w(' 0x%02X\n' % b[2])
    o.ind(ind)
    o.headerln('Card Verification Results:')
    show_bits(o, cvr, ind + 1, sevcol)
    o.ind(ind)
    o.headerln('Counters: (Payment System-Specific)')
    o.w(dump(b[8:16], 16, ind + 1))
    o.ind(ind)
    o.headerln('Issuer-Discretionary Data')
    o.w(dump(b[17:32], 16, ind + 1))


IAC = {
    'IssuerActionCodeDefault': 'If not an online transaction and any of the following match the TVR, reject the transaction:',
    'IssuerActionCodeDenial': 'If any of the following match the TVR, deny the transaction without even going online:',
    'IssuerActionCodeOnline': 'If any of the following match the TVR, complete the transaction online:',
}


def show_service_code(o, n, ind):
    if n > 999:
        raise Err('InvalidNumber')
    p1, p2, p3 = n // 100, n // 10 % 10, n % 10
    o.ind(ind)
    o.set(True)
    o.w('%03d\n' % n)
    o.reset()
    for arm, k, pad, en, v in (('\u2502\u2502\u251c ', 'Allowed Services:', 9, 'AllowedServices', p3),
                               ('\u2502\u2502\u2514 ', 'PIN Requirements:', 9, 'PinRequirements', p3),
                               ('\u2502\u2514\u2500 ', 'Authorisation Processing:', 1, 'AuthorisationProcessing', p2),
                               ('\u251c\u2500\u2500 ', 'Interchange:', 14, 'Interchange', p1),
                               ('\u2514\u2500\u2500 ', 'Technology:', 15, 'Technology', p1)):
        o.ind(ind)
        o.w(arm)
        o.set(True)
        o.w(k)
        o.reset()
        o.w(' ' * pad + enum_variant(en, v)[1] + '\n')


def show_basic(o, b, ind):
    if not b:
        raise bytecount('Greater', 1, 0)
    o.ind(ind)
    o.header('Name:')
    o.w('             %s\n' % TAGS.get(hexs(b), '<Unknown>'))
    o.ind(ind)
    o.header('Tag:')
    o.w('              0x')
    o.set(True)
    o.w(hexs(b))
    o.reset()
    o.w('\n')
    o.ind(ind)
    o.header('Class:')
    o.w('            %s\n' % CLASS_TEXT[b[0] >> 6])
    o.ind(ind)
    o.header('Data Object Type:')
    o.w(' %s\n' % ('Primitive', 'Constructed')[b[0] >> 5 & 1])


ONE_BYTE = ('TransactionType', 'TerminalType', 'PosEntryMode')


def show_value(name, o, b, ind=0, sevcol=True):
    if name in BITFLAGS or name == 'CardholderVerificationMethodResults':
        show_bits(o, bits_of(name, b), ind, sevcol)
    elif name == 'CardholderVerificationMethodList':
        show_cvm_list(o, b, ind)
    elif name == 'IssuerApplicationData':
        show_iad(o, b, ind, sevcol)
    elif name in IAC:
        v = fields('TerminalVerificationResults', b)
        o.ind(ind)
        o.headerln(IAC[name])
        show_bits(o, v, ind, False)
    elif name in ONE_BYTE:
        if len(b) != 1:
            raise bytecount('Equal', 1, len(b))
        t = enum_variant(name, b[0])[1]
        o.ind(ind)
        o.w(t + '\n')
    elif name == 'AuthorisationResponseCode':
        show_arc(o, b, ind)
    elif name == 'ServiceCode':
        if len(b) != 2:
            raise bytecount('Equal', 2, len(b))
        show_service_code(o, u16_text(hexs(b)), ind)
    elif name == 'TagBasicInfo':
        show_basic(o, b, ind)
    else:
        raise KeyError(name)


def show_arc(o, b, ind):
    if len(b) != 2:
        raise bytecount('Equal', 2, len(b))
    try:
        s = b.decode('utf-8')
    except UnicodeDecodeError:
        raise Err('InvalidNumber')
    t = enum_variant('AuthorisationResponseCode', s)[1]
    o.ind(ind)
    o.w(t + '\n')


# ---------------------------------------------------------------- tags
DECODER = {
    '5F30': 'ServiceCode', '8A': 'AuthorisationResponseCode', '8E': 'CardholderVerificationMethodList',
    '95': 'TerminalVerificationResults', '9B': 'TransactionStatusInformation', '9C': 'TransactionType',
    '9F0D': 'IssuerActionCodeDefault', '9F0E': 'IssuerActionCodeDenial', '9F0F': 'IssuerActionCodeOnline',
    '9F10': 'IssuerApplicationData', '9F33': 'TerminalCapabilities',
    '9F34': 'CardholderVerificationMethodResults', '9F35': 'TerminalType', '9F39': 'PosEntryMode',
    '9F40': 'AdditionalTerminalCapabilities',
}
UNRECOGNISED = {
    '8A': (UNR, 'Authorisation Response Code (Unrecognised - likely payment system-specific)'),
    '9C': (UNR, 'Transaction Type (Unrecognised - likely payment system-specific)'),
    '9F10': ('NonCcdCompliant', 'Issuer Application Data (Not CCD-Compliant)'),
}


def process_tag(tag, data):
    """('R'|'A'|'P', name, decoder)"""
    t = hexs(tag)
    name = TAGS.get(t)
    if name is None:
        return 'R', '', ''
    d = DECODER.get(t)
    if d is None or data is None:
        return 'A', name, ''
    try:
        show_value(d, Out(False), data)
    except Err as e:
        if t in UNRECOGNISED and e.args[0] == UNRECOGNISED[t][0]:
            return 'A', UNRECOGNISED[t][1], ''
        raise
    return 'P', name, d


def process(nodes):
    """Processing order matters for which error is reported: each node's tag,
    then its children."""
    for x in nodes:
        x.proc = process_tag(x.tag, x.data)
        process(x.kids)
    return nodes


def sort(nodes):
    nodes.sort(key=lambda x: x.tag)   # stable
    for x in nodes:
        sort(x.kids)


def proc_text(nodes):
    return '[' + ''.join('(%s|%s|%s|%s|%s|%s|%s|%s)' % (
        *x.proc, hexs(x.tag), CLASS[x.cls], ('Primitive', 'Constructed')[x.cons],
        '*' if x.data is None else hexs(x.data), proc_text(x.kids)) for x in nodes) + ']'


def show_block(o, nodes, ind, sevcol):
    for i, x in enumerate(nodes):
        if i:
            o.w('\n')
        kind, name, dec = x.proc
        o.ind(ind)
        o.header('Tag:')
        o.w(' 0x')
        o.set(True)
        o.w(hexs(x.tag))
        o.reset()
        if x.data is None:
            o.w(' - ?? bytes')
        else:
            o.w(' - %d byte%s' % (len(x.data), '' if len(x.data) == 1 else 's'))
        o.w(' - %s\n' % (name if kind != 'R' else '<Unknown>'))
        if x.data is None:
            o.ind(ind)
            o.headerln('* Masked *')
        elif x.data:
            o.ind(ind)
            o.headerln('Raw:')
            o.w(dump_pretty(x.data, 16, ind + 1))
        if kind == 'P':
            o.ind(ind)
            o.headerln('Parsed:')
            show_value(dec, o, x.data, ind + 1, sevcol)
        if x.kids:
            o.ind(ind)
            o.headerln("Constructed Data Object's Child Tags:")
            show_block(o, x.kids, ind + 1, sevcol)


def show_tlv(fmt, data, masks, sort_nodes, ind, sevcol, colour):
    """fmt: ber (data: bytes), ing (data: str)"""
    o = Out(colour)
    nodes = process(ber(data, masks) if fmt == 'ber' else ingenico(data, masks))
    if sort_nodes:
        sort(nodes)
    show_block(o, nodes, ind, sevcol)
    return o.text()


# ---------------------------------------------------------------- the program
MESSAGE = {
    'ByteCountNotDivisibleIntoComponents': 'The number of bytes provided is not divisible into the components of the value. Please check the format of the input data.',
    'InvalidBytes': 'The bytes provided are not valid.',
    'InvalidNumber': 'The value provided is not a valid number, or is too large.',
    'NonCompliant': "The value provided isn't compliant with the specifications in some way, or this tool is out of date. If you have reason to believe it's the latter, please make sure you're using the latest version then open an issue on GitHub.",
    'NonCcdCompliant': "The value provided isn't compliant with the EMV Common Core Definitions (CCD) in some way. This isn't a problem necessarily, but it does mean that the value can't be parsed.",
    'Unsupported': 'The value provided is in some way unsupported. If you have genuine need for the unsupported feature, please open an issue on GitHub.',
    'Unrecognised': "The value provided is in some way unrecognised. This isn't a problem necessarily, but it does mean that the value can't be parsed.",
}
FORMAT = {'BER': 'BER-TLV', 'ING': 'Ingenico'}
KIND = {'Less': 'less than or equal to', 'Equal': 'exactly', 'Greater': 'greater than or equal to'}


def message(e):
    m = re.match(r'ByteCountIncorrect \{ type: (\w+), expected: (\d+), found: (\d+) \}', e)
    if m:
        return f'The wrong number of bytes were provided for the value. Perhaps you provided the wrong value? Expected: {KIND[m.group(1)]} {m.group(2)}, Found: {m.group(3)}'
    return MESSAGE[e]


COMMAND = {'tvr': 'TerminalVerificationResults', 'ccd-iad': 'IssuerApplicationData', 'ccd-cvr': 'CardVerificationResults', 'tsi': 'TransactionStatusInformation',
           'cvm-results': 'CardholderVerificationMethodResults', 'cvm-list': 'CardholderVerificationMethodList', 'identify': 'TagBasicInfo'}
ALIAS = {'tvr': ['-t', '--tvr', '--95', '--iac', '--tac'], 'ccd-iad': ['--ccd-iad', '--9F10', '--9f10', '--iad'], 'ccd-cvr': ['--ccd-cvr', '--cvr'],
         'tsi': ['--tsi', '--9B', '--9b'], 'cvm-results': ['-r', '--cvm-results', '--9F34', '--9f34', '--cvm-result'], 'cvm-list': ['--cvm-list', '--8E', '--8e'],
         'identify': ['--identify', '--id'], 'auto-tlv': ['-a', '--auto-tlv', '--auto', '--parse-tlv', '--parse'], 'ber-tlv': ['-b', '--ber-tlv', '--ber'],
         'ingenico-tlv': ['-i', '--ingenico-tlv', '--ingenico'], 'service-code': ['--service-code', '--5F30', '--5f30']}


def command(cmd, arg, masks=('*',), sort_nodes=True, colour=False):
    """(standard output, standard error)"""
    o = Out(colour)
    try:
        if cmd in COMMAND:
            show_value(COMMAND[cmd], o, hex_lenient(arg), 0, True)
        elif cmd == 'service-code':
            show_service_code(o, u16_text(arg), 0)
        else:
            if cmd == 'auto-tlv':
                fmt, nodes = auto(arg, masks)
            else:
                nodes = ber(hex_lenient(arg), masks) if cmd == 'ber-tlv' else ingenico(arg, masks)
            nodes = process(nodes)
            if cmd == 'auto-tlv':
                o.header('TLV Format: ')
                o.w(FORMAT[fmt] + '\n\n')
            if sort_nodes:
                sort(nodes)
            show_block(o, nodes, 0, True)
    except Err as e:
        return '', message(e.args[0]) + '\n'
    return o.text(), ''
