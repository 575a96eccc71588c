"""Case generators, one per property: each yields (driver op, args, expected).
`expected` is the exact record or a predicate on it. Structured random cases
plus the complete enumeration of small domains."""
import itertools, json
import oracle as O
from oracle import Err, hexs


def exp(f):
    try:
        return f()
    except Err as e:
        return 'E' + e.args[0]


# ---------------------------------------------------------------- building blocks
KNOWN = sorted(O.TAGS)
MASKSETS = [['*'], ['*', 'X'], ['*', '*'], ['X', '*', 'X'], ['#'], [], ['0'], ['A', '0'], ['\u00e9'], ['a', 'b', '*']]


# literals that are new in the source under test (lib/literals.py)
WORDS, INTS, BYTES = [], [], []


def dictionary(words, ints, byts):
    WORDS[:], INTS[:] = words, ints
    BYTES[:] = list(byts) + [w.encode() for w in words]
    for w in words:
        try:
            BYTES.append(bytes.fromhex(w))
        except ValueError:
            pass
    for i in ints:
        if 255 < i < 2 ** 64:
            BYTES.append(i.to_bytes((i.bit_length() + 7) // 8, 'big'))
            BYTES.append(i.to_bytes((i.bit_length() + 7) // 8, 'little'))
    BYTES[:] = [b for b in BYTES if b]


def near(r, low, high, p=.15):
    """now and then a new number of the source, or one next to it"""
    c = [x for i in INTS for x in (i - 1, i, i + 1, i * 2, i // 2) if low <= x <= high] if INTS and r.random() < p else []
    return r.choice(c) if c else None


def words(r, s, p=.25):
    """now and then a new text of the source put in s"""
    if WORDS and r.random() < p:
        for _ in range(r.choice((1, 1, 2))):
            w = r.choice(WORDS)
            w = r.choice((w, w, w, w.lower(), w.upper()))
            k = r.random()
            i = 0 if k < .4 else len(s) if k < .55 else r.randrange(len(s) + 1)
            j = i if k < .85 else min(len(s), i + len(w))
            s = s[:i] + w + s[j:]
            if k > .97:
                s = w
    return s


def rmasks(r):
    if WORDS and r.random() < .1:
        return [r.choice(r.choice(WORDS))]
    return r.choice(MASKSETS) if r.random() < .4 else ['*']


def rbytes(r, n):
    if n and (INTS or BYTES) and r.random() < .3:
        b = bytearray(r.choice((b'\0' * n, b'\xff' * n, bytes(r.getrandbits(8) for _ in range(n)))))
        for _ in range(r.choice((1, 1, 2))):
            i = r.choice((0, n - 1, r.randrange(n)))
            if BYTES and r.random() < .5:
                w = r.choice(BYTES)
                i = r.choice((0, max(0, n - len(w)), i))
                b[i:i + len(w)] = w
            else:
                x = near(r, 0, 255, 1)
                if x is not None:
                    b[i] = x
                    if r.random() < .2:
                        b = bytearray([x]) * n
        return bytes(b[:n])
    k = r.random()
    if k < .15:
        return bytes([r.choice([0, 0xFF, 0x2A, 0x30, 0x20, 0x41, 0x80])]) * n
    if k < .3:
        return bytes(r.choice((0, 1, 0x1F, 0x5F, 0x7F, 0x80, 0x81, 0x82, 0x84, 0x85, 0x9F, 0xBF, 0xFF)) for _ in range(n))
    return bytes(r.getrandbits(8) for _ in range(n))


def rtag(r, known=.5, cons=None):
    if BYTES and r.random() < .1:
        b = bytearray(r.choice(BYTES)[:8])
        if cons is not None:
            b[0] = b[0] & 0xDF | cons << 5
        if len(b) > 1:
            b[0] |= 0x1F
            b[1:] = [x | 0x80 for x in b[1:-1]] + [b[-1] & 0x7F]
        elif b[0] & 0x1F == 0x1F:
            b.append(r.getrandbits(7))
        return bytes(b)
    m = near(r, 1, 40, .1)
    if m:
        b0 = r.getrandbits(8)
        b0 = b0 & 0xDF | cons << 5 if cons is not None else b0
        return bytes([b0 | 0x1F] + [r.getrandbits(8) | 0x80 for _ in range(m - 2)] + [r.getrandbits(7)]) if m > 1 else bytes([b0 & 0xFE])
    if r.random() < known:
        t = bytes.fromhex(r.choice(KNOWN))
        if cons is None or (t[0] >> 5 & 1) == cons:
            return t
    b0 = r.getrandbits(8)
    if cons is not None:
        b0 = b0 & 0xDF | cons << 5
    if b0 & 0x1F != 0x1F:
        if r.random() < .6:
            return bytes([b0])
        b0 |= 0x1F
    n = r.choice((0, 0, 0, 1, 1, 2, 3, 6))
    return bytes([b0]) + bytes(r.getrandbits(8) | 0x80 for _ in range(n)) + bytes([r.getrandbits(7)])


def rlen(r, n):
    ks = [k for k in (0, 1, 2, 3, 4) if n < 256 ** k]
    if n < 128 and r.random() < .7:
        return bytes([n])
    k = r.choice(ks)
    return bytes([0x80 | k]) + n.to_bytes(k, 'big')


def rvalue(r, depth, known):
    m = near(r, 0, 70000, .1)
    if m is not None:
        return rbytes(r, m)
    k = r.random()
    if depth > 0 and k < .75:
        v = rtlv(r, depth - 1, known)
        if r.random() < .15:
            v = mutate(r, v)
        return v
    if k < .85:
        return rbytes(r, r.choice((0, 0, 1, 1, 2, 3, 4, 5, 8, 16, 17, 31, 33)))
    if k < .9:
        return bytes([r.choice(b'*X#0Aa')]) * r.choice((0, 1, 2, 3, 5))
    if k < .97:
        return rbytes(r, r.randrange(0, 140))
    return rbytes(r, r.choice((127, 128, 129, 255, 256, 257, 300)))


def rtlv(r, depth=3, known=.5, n=None):
    out = b''
    if n is None and depth:
        n = near(r, 0, 400, .03)
        if near(r, 0, 260, .03):
            return nested(near(r, 0, 260, 1), rtlv(r, 0, known, 1))
    t = None
    for _ in range(n if n is not None else r.choice((0, 1, 1, 1, 2, 2, 3, 5))):
        d = depth if r.random() < .6 else 0
        if t is None or r.random() < .9:
            t = rtag(r, known, 1 if d else None)
        v = rvalue(r, d if t[0] & 0x20 else 0, known)
        k = r.random()
        if k < .02:
            v = t  # the value repeats the tag
        elif k < .04 and len(out) < 300:
            v = out  # what came before, again
        elif k < .06 and d:
            v = t + rlen(r, len(v)) + v  # an object of the same tag inside
        x = t + rlen(r, len(v)) + v
        out += x * (2 if r.random() < .03 else 1)
    return out


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice((1, 1, 2))):
        k = r.randrange(5)
        if not b or k == 0:
            b.insert(r.randrange(len(b) + 1), r.getrandbits(8))
        elif k == 1:
            del b[r.randrange(len(b))]
        elif k == 2:
            b[r.randrange(len(b))] = r.choice((0, 1, 0x1F, 0x7F, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x88, 0xFF, r.getrandbits(8)))
        elif k == 3:
            del b[r.randrange(len(b)):]
        else:
            b += bytes([r.getrandbits(8) for _ in range(r.randrange(4))])
    return bytes(b)


def rber(r, depth=3, known=.5):
    k = r.random()
    if k < .55:
        return rtlv(r, depth, known)
    if k < .9:
        return mutate(r, rtlv(r, depth, known))
    return rbytes(r, r.randrange(0, 24))


def nested(n, inner=b''):
    """n constructed levels around inner"""
    b = inner
    for _ in range(n):
        l = len(b)
        b = b'\x70' + (bytes([l]) if l < 128 else bytes([0x80 | (l.bit_length() + 7) // 8]) + l.to_bytes((l.bit_length() + 7) // 8, 'big')) + b
    return b


def small_bers():
    """all strings up to length 3 over the bytes that matter"""
    al = (0x00, 0x01, 0x02, 0x1F, 0x3F, 0x70, 0x7F, 0x80, 0x81, 0x82, 0x84, 0x85, 0x2A, 0xFF)
    for n in range(5):
        for t in itertools.product(al, repeat=n):
            yield bytes(t)


def hexcase(r, s):
    k = r.random()
    return s.lower() if k < .3 else ''.join(c.lower() if r.random() < .5 else c for c in s) if k < .5 else s


def ring(r, depth=2, n=None):
    return words(r, ring0(r, depth, near(r, 0, 400, .05) if n is None else n))


def ring0(r, depth=2, n=None):
    out = []
    for _ in range(n if n is not None else r.choice((0, 1, 1, 2, 3))):
        t = rtag(r, .5)
        ts = '00' * r.choice((0, 0, 0, 1, 2)) + hexs(t)
        if r.random() < .04:
            ts = '00' * r.randrange(4)
        if r.random() < .1:
            ts += r.choice(('', 'F', 'g', ' ', '0'))
        v = rvalue(r, depth if r.random() < .5 else 0, .5)
        fmt = 'h' if r.random() < .65 else 'a'
        if fmt == 'a':
            v = bytes(0x20 + x % 0x5F for x in v)
            body = v.decode()
        else:
            body = hexcase(r, hexs(v))
        L = len(v)
        if r.random() < .15:
            m = r.choice('*X#0')
            body = m * len(body)
        elif r.random() < .05 and body:
            i = r.randrange(len(body))
            body = body[:i] + r.choice('*g :T') + body[i + 1:]
        ls = '%02X' % L if L < 256 else '%04X' % L
        if r.random() < .2:
            ls = '00' * r.choice((1, 2, 3, 4)) + ls
        if r.random() < .05:
            ls = r.choice(('', '0', ls + '0', '1' + ls, 'zz', '%02X' % (L + 1), '%02X' % max(0, L - 1)))
        out.append((r.choice('TTTTTTTTCDt:') + hexcase(r, ts) + ':' + hexcase(r, ls) + ':' +
                    (fmt if r.random() < .97 else r.choice('AHxb:')) + body))
    s = ''
    for i, x in enumerate(out):
        s += x + (r.choice(',;| \x1c\nT') if i + 1 < len(out) or r.random() < .2 else '')
    k = r.random()
    if k < .12 and s:
        i = r.randrange(len(s))
        s = s[:i] + r.choice(('', ':', '\u00e9', 'T', '0', '00')) + s[i + 1:]
    elif k < .18 and s:
        s = s[:r.randrange(len(s))]
    return s


def strip_kids(rec):
    """drops the nested blocks of a raw record"""
    out, d = [], 0
    for c in rec:
        if c == '[':
            d += 1
            if d == 1:
                out.append(c)
        elif c == ']':
            d -= 1
            out.append(']' if d == 0 else ' ' if d == 1 else '')
        elif d <= 1:
            out.append(c)
    return ''.join(out)


def worker0(r, tier):
    return getattr(r, 'first', True)


# ---------------------------------------------------------------- properties
def same_flat(e):
    def f(rec):
        """the same data objects at the outermost level"""
        return strip_kids(rec) == strip_kids(e)
    return f


# what comes before this marker is enumerated (shared out over the workers)
RANDOM = ('', (), None)

# around every power of two (and of ten): where a size, a count or an index is cut short
SIZES = sorted({n + d for n in [2 ** k for k in range(18)] + [10 ** k for k in range(6)] for d in (-1, 0, 1)})


def pattern(n, a=7, b=3):
    return bytes((i * a + b + i // 251) & 0xFF for i in range(n))


def odd_lengths():
    """every number of length bytes with the lengths around each power of two that they can write, over little or no content"""
    for k in range(128):
        ls = {0, 1, 2, 0x7F, 0x80, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000} | {2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 3, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1}
        for n in sorted(ls) if k < 10 else (0, 1, 2):
            if n < 256 ** k:
                b = bytes([0x80 | k]) + n.to_bytes(k, 'big')
                for v in (b'', b'A', b'AB', b'AB\x95\x01\x42'):
                    yield b + v


def reshaped(v):
    """a well-formed value, and the same with content before, after, missing, doubled or reversed"""
    yield v
    for f in (0, 0xFF, 0x0F, 0x20, 0x30, 0x80, 0xF0, 1):
        for k in (1, 2, 3):
            yield v + bytes([f]) * k
            yield bytes([f]) * k + v
    for k in range(1, 4):
        yield v[:-k]
        yield v[k:]
    yield v + v
    yield v + v[-1:]
    yield v[::-1]
    yield bytes([len(v)]) + v


def g_ber(r, tier, flat=False):
    def case(m, b):
        e = exp(lambda: O.raw_text(O.ber(b, m)))
        return 'ber', (''.join(m), b), same_flat(e) if flat else e
    for x in range(256):
        yield 'meta', (bytes([x]),), '%s %s' % (O.CLASS[x >> 6], ('Primitive', 'Constructed')[x >> 5 & 1])
    for b in small_bers():
        yield case(['*'], b)
    for L in (0, 1, 127, 128, 255, 256, 65535, 65536, 70000):
        for k in range(5):
            if L < 256 ** k:
                v = bytes(i % 251 for i in range(L))
                for d in (0, -1, 1):
                    b = b'\xDF\x81\x01' + bytes([0x80 | k]) + L.to_bytes(k, 'big') + (v[:d] if d < 0 else v + b'\0' * d)
                    yield case([], b)
                yield case([], b'\x5A' + bytes([0x80 | k]) + L.to_bytes(k, 'big') + v + b'\x95\x01\x42')
    for L in range(128):
        yield case([], b'\x5A' + bytes([L]) + b'\x11' * L)
        yield case([], b'\x5A' + bytes([L]) + b'\x11' * (L - 1 if L else 0))
    for n in SIZES:
        if n < 20000:
            yield case([], many(n))
            yield case([], many(n) + b'\x5A\x02\x11')
        if n < 300:
            for t in (b'\x5F', b'\xBF'):
                yield case([], t + b'\x81' * n + b'\x01\x01A\x5A\x01\x11')
                yield case([], t + b'\x80' * n)
    for b in odd_lengths():
        yield case([], b'\x5A' + b)
        yield case([], b'\x9A\x01\x42\x7F\x21' + b)
    yield RANDOM
    while True:
        yield case(rmasks(r), rber(r))


def g_C01(r, tier):
    return g_ber(r, tier, flat=True)


def g_C07(r, tier):
    # only constructed objects: the outer decode is C01's
    def case(m, b):
        e = exp(lambda: O.raw_text(O.ber(b, m)))
        return 'ber', (''.join(m), b), e
    for n in (1, 2, 3, 10, 100, 200, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 300, 600):
        for inner in (b'', b'\x95\x01\x42', b'\x70\x00', b'\x70\x02\x95\x01'):
            yield case(['*'], nested(n, inner))
    yield case(['*'], nested(3000, b'\x95\x01\x42'))
    for n in (1, 2, 3, 10, 100, *range(240, 260), 300):
        v = nested(n, b'\x95\x01\x42')
        s = 'T70:%04X:h%s,T5A:01:h22' % (len(v), hexs(v))
        yield 'ing', ('*', s), exp(lambda: O.raw_text(O.ingenico(s, ['*'])))
    for b in sized():
        yield case(['*'], b)
    for b in odd_lengths():
        yield case(['*'], tlv(b'\x70', b'\x9A\x01\x42\x5A' + b))
    k = 0
    yield RANDOM
    while True:
        k += 1
        outer_t = rtag(r, .3, 1)
        v = rvalue(r, 3, .4)
        if r.random() < .3:
            v = mutate(r, v)
        b = rtlv(r, 1, .4, r.choice((0, 0, 1))) + outer_t + rlen(r, len(v)) + v + rtlv(r, 1, .4, r.choice((0, 0, 1)))
        m = rmasks(r)
        if k % 4 == 0:
            s = ''.join('T%s:%s:h%s,' % (hexs(rtag(r, .3, 1)), hexs(bytes([len(v)])) if len(v) < 256 else '%04X' % len(v), hexs(v)) for _ in range(r.choice((1, 2))))
            yield 'ing', (''.join(m), s), exp(lambda: O.raw_text(O.ingenico(s, m)))
        else:
            yield case(m, b)


def g_C03(r, tier):
    def case(m, b):
        e = 'true' if O.masked_bytes(b, m) else 'false'
        try:
            e += ' true' if O.masked_text(b.decode(), m) else ' false'
        except UnicodeDecodeError:
            pass
        e += ' *' if O.masked_bytes(b, m) else ' ' + hexs(b)
        return 'mask', (''.join(m), b), e
    pool = ['*', 'X', '#', '0', '\u00e9', '\u20ac', 'a', '\x00', '\x7f', '\xff', '\x80', '\u0100', '\u012a']
    for c in pool + [chr(x) for x in range(256)]:
        for d in ([c], ['Q', c], [c, 'Q'], []):
            for n in range(4):
                for raw in (c.encode() * n, bytes([ord(c) & 0xFF]) * n):
                    yield case(d, raw)
                    for i in range(n):
                        x = bytearray(raw)
                        x[i] ^= 1
                        yield case(d, bytes(x))
    for c in pool + ['x', 'Z', '\u00c9', '\u212a', '\uff0a', '\u2217']:
        for o in {c.swapcase()[:1], chr(ord(c) ^ 0x20), chr(ord(c) + 1), chr(ord(c) | 0x80), chr(ord(c) + 256), chr(ord(c) & 0x7F), c.lower()[:1], c.upper()[:1], ' ', '\0'} - {c}:
            if 0xD800 <= ord(o) < 0xE000:
                continue
            for t in (o, o * 2, o * 4, c + o, o + c, c * 2 + o, c + o + c, o + c * 3, c * 3 + o):
                for d in ([c], [c, o], ['Q', c], []):
                    yield case(d, t.encode())
                b = bytes([len(t.encode())])
                yield 'ber', (c, b'\x5A' + b + t.encode()), exp(lambda: O.raw_text(O.ber(b'\x5A' + b + t.encode(), [c])))
                if t.isascii():
                    s = 'T5A:%02X:a%s' % (len(t), t)
                    yield 'ing', (c, s), exp(lambda: O.raw_text(O.ingenico(s, [c])))
                    s = 'T5A:%02X:h%s' % (len(t) // 2, t)
                    yield 'ing', (c, s), exp(lambda: O.raw_text(O.ingenico(s, [c])))
    for n in SIZES:
        if n < 10000:
            for c in ('*', 'X', '\u00e9', '\u20ac'):
                u = c.encode() * n
                yield case(['Q', c], u)
                yield case([chr(x) for x in range(0x100, 0x100 + n % 300)] + [c], b'*')
                for i in {0, len(u) // 2, len(u) - 1} if u else ():
                    x = bytearray(u)
                    x[i] = 0x30
                    yield case(['Q', c], bytes(x))
    abc = 'abcdefghijklmnopqrstuvwxyz'
    for n in range(2, 26):
        for t in {abc[0] * 2, abc[n - 1] * 2, abc[0] + abc[1], abc[1] + abc[n - 1], abc[n - 1] + abc[0], abc[0] + abc[n - 1], abc[n - 2] + abc[n - 1], abc[n] * 2, abc[:n], abc[0] * 3 + abc[1],
                  abc[n - 1] * 3 + abc[0], abc[n - 1] * 2 + abc[0], abc[n // 2] * 2}:
            yield case(list(abc[:n]), t.encode())
    yield RANDOM
    while True:
        m = [r.choice(pool) for _ in range(r.choice((0, 1, 1, 2, 3, r.randrange(12))))]
        k = r.random()
        c = r.choice(pool)
        if k < .4:
            b = c.encode() * r.randrange(40)
        elif k < .6:
            b = bytes([ord(c) & 0xFF]) * r.randrange(40)
        else:
            b = ''.join(r.choice(pool[:3] + [c]) for _ in range(r.randrange(6))).encode()
        if r.random() < .4 and b:
            x = bytearray(b)
            x[r.choice((0, -1, r.randrange(len(x))))] = r.getrandbits(8)
            b = bytes(x)
        if r.random() < .2:
            # through the TLV formats
            if r.random() < .5:
                t = b'\x5A' + rlen(r, len(b)) + b
                yield 'ber', (''.join(m), t), exp(lambda: O.raw_text(O.ber(t, m)))
            else:
                s = 'T5A:%02X:a%s' % (len(b), b.decode('latin-1'))
                if r.random() < .5:
                    n = r.randrange(5)
                    s = 'T5A:%02X:h%s' % (n, ''.join(r.choice(c + (r.choice('0*') if r.random() < .2 else c)) for _ in range(2 * n)))
                yield 'ing', (''.join(m), s), exp(lambda: O.raw_text(O.ingenico(s, m)))
        else:
            yield case(m, b)


def g_C04(r, tier):
    def case(m, s):
        return 'ing', (''.join(m), s), exp(lambda: O.raw_text(O.ingenico(s, m)))
    for s in ('', 'T', 'T:', 'T:00:h', 'T5A::h', 'T5A:00:h', 'T5A:00:a', 'T5A:00:', 'T5A:00', 'C5A:01:h22,T5A:01:h22', 'T00:00:h', 'T0000:00:h',
              'T005A:00:h', 'T5A:0000000001:h22', 'T5A:00000001:h22', 'T5A:FFFFFFFF:h22', 'T5A:FFFFFFFF:a22', 'T5A:80000000:h', 'T5A:7FFFFFFF:h',
              'T5A:01:h2', 'T5A:01:h22T', 'T5A:01:h22,', 'T5A:01:h22,,', 'T5A:01:h2222', 'T5A:01:a2', 'T5A:001:h22', 'T5A:1:h22', 'TA:01:h22', 'T5AA:01:h22'):
        yield case(['*'], s)
    pieces = ['T', '5A', '00', '0', ':', ':', '01', '02', 'h', 'a', '22', '**', '*', ',', 'g', 'C', '\u00e9']
    for n in range(4):
        for t in itertools.product(pieces[:12], repeat=n):
            yield case(['*'], 'T5A:' + ''.join(t))
    for n in SIZES:
        if n < 70000:
            yield case(['*'], 'T9F02:%08X:h%s,T5A:01:h22' % (n, hexs(pattern(n))))
            yield case(['*'], 'T9F02:%X:a%s,T5A:01:h22' % (n, ''.join(chr(33 + i % 90) for i in range(n))))
            yield case(['*'], 'T9F02:%X:a%s' % (n, '\u00e9' * n))
        if n < 5000:
            yield case(['*'], 'T%s:01:h22,T5A:01:h22' % hexs(b'\x9F' + b'\x81' * n + b'\x01'))
            yield case(['*'], 'T%s:01:h22,T5A:01:h22' % ('00' * n + '9F02'))
            yield case(['*'], 'T9F02:%s:h22,T5A:01:h22' % ('0' * n + '1'))
            yield case(['*'], ''.join('T%X:01:h%02X,' % (0xDF8000 | (i >> 7) << 8 | i & 0x7F, i & 0xFF) for i in range(n)))
    yield RANDOM
    while True:
        k = r.random()
        if k < .9:
            yield case(rmasks(r), ring(r))
        else:
            yield case(['*'], ''.join(r.choice(pieces) for _ in range(r.randrange(12))))


def g_C05(r, tier):
    def case(m, s):
        def f():
            k, v = O.auto(s, m)
            return k + ':' + O.raw_text(v)
        return 'auto', (''.join(m), s), exp(f)
    for w in HEXDECOR + WORDS:
        for t in ('950142', '5A0111', 'T5A:01:h22', '9500'):
            yield case(['*'], w + t)
            yield case(['*'], t + w)
    for s in ('', ' ', 'T', '95', '9500', '950142', 'zz', 'T5A:01:h22', '5A:01:22', 'T5A:01:h2', '8A0205', '\u00e9', '\u00e99500', 'g9500', '95 00', '5'):
        yield case(['*'], s)
    for n in SIZES:
        if n < 70000:
            v = hexs(pattern(n))
            for s in ('T9F02:%08X:h%s' % (n, v), 'T9F02:%08X:a%s' % (n, 'A' * n), hexs(tlv(b'\x50', pattern(n))), 'T' + v, v + 'zz', 'T9F02:%08X:h' % (n + 1) + v):
                yield case(['*'], s)
    yield RANDOM
    while True:
        k = r.random()
        m = rmasks(r)
        if k < .45:
            s = ring(r)
        elif k < .9:
            b = hexcase(r, hexs(rber(r)))
            if r.random() < .2:
                b = ''.join(c + r.choice(('', '', ' ', ':', 'T', '\u00e9')) for c in b)
            s = b
        else:
            s = ''.join(r.choice('T5A:01h2a9*\u00e9 ') for _ in range(r.randrange(14)))
        yield case(m, words(r, s))


HEXDECOR = ['0x', '0X', 'x', '\\x', '#', '$', 'h', '0h', 'H', '"', "'", '{', '[', '(', '0x0x', '\ufeff', '\u200b', '\u00a0', '-', '+', '_', '/', '//', '%', '&', '=', '\r\n', '0b', '0o', 'U+', 'hex:', 'EOF', 'null']


def g_C06(r, tier):
    for a in range(256):
        yield 'tostr', (bytes([a]),), '%02X' % a
        yield 'hexs', (chr(a) + '7' + chr(a),), hexs(O.hex_lenient(chr(a) + '7' + chr(a)))
        yield 'hexstrict', (chr(a) + '7',), exp(lambda: hexs(O.hex_strict(chr(a) + '7')))
        yield 'hexstrict', ('7' + chr(a),), exp(lambda: hexs(O.hex_strict('7' + chr(a))))
    for a in (0x130, 0x141, 0x2041, 0xFF11, 0x661, 0x1D7D8, 0x161, 0x10041):
        for t in (chr(a), chr(a) + '1', '12' + chr(a)):
            yield 'hexs', (t,), hexs(O.hex_lenient(t))
            yield 'hexstrict', (t,), exp(lambda: hexs(O.hex_strict(t)))
    for w in HEXDECOR + WORDS:
        for t in (w, w + '9F02', '9F02' + w, w + '9' + w + 'F02', w + '9F0'):
            yield 'hexs', (t,), hexs(O.hex_lenient(t))
            yield 'hexstrict', (t,), exp(lambda: hexs(O.hex_strict(t)))
            yield 'u16s', (t,), exp(lambda: str(O.u16_text(t)))
    for n in SIZES:
        b = pattern(n)
        yield 'tostr', (b,), hexs(b)
        t = hexs(b)
        yield 'hexs', (t,), t
        yield 'hexstrict', (t,), t
        t = t[:-1]
        yield 'hexs', (t,), hexs(O.hex_lenient(t))
        yield 'hexstrict', (t,), exp(lambda: hexs(O.hex_strict(t)))
        for t in (' ' * n + '9F02', '9F02' + 'g' * n, '9' + '\n' * n + 'F02', 'ab' * n + 'g', 'Cd ' * (n // 2)):
            yield 'hexs', (t,), hexs(O.hex_lenient(t))
            if n < 5000:
                yield 'hexstrict', (t,), exp(lambda: hexs(O.hex_strict(t)))
        if n < 5000:
            for t in ('0' * n + '201', ' ' * n + '201', '201' + ' ' * n, '9' * n, '+' + '0' * n + '7'):
                yield 'u16s', (t,), exp(lambda: str(O.u16_text(t)))
            yield 'trim', (b'\0' * n + b'\x07\0\x01',), '070001'
            yield 'trim', (b'\0' * n,), '00' if n else ''
    for n in range(9):
        for _ in range(60):
            b = rbytes(r, n)
            yield 'ints', (b,), (str(int.from_bytes(b, 'big')) if n <= 4 else '') + ' ' + str(int.from_bytes(b, 'big'))
    for t in itertools.product((0, 1, 0x80), repeat=4):
        for n in range(5):
            b = bytes(t[:n])
            e = b
            while len(e) > 1 and e[0] == 0:
                e = e[1:]
            yield 'trim', (b,), hexs(e)
    for n in range(5, 9):
        yield 'int32', (bytes(n),), panics
        yield 'int32', (rbytes(r, n),), panics
    for k in range(10):
        for n in (10 ** k - 1, 10 ** k, 10 ** k + 1, 2 ** 32 - 1):
            if n < 2 ** 32:
                yield 'digits', (n,), str(len(str(n)))
    for t in ('', '0', '000', '220', ' 220 ', '+220', '-1', '-0', '65535', '65536', '99999999999999999999', '1e2', '0x10', '00000220', '\u0662', '\u3000201', '2 01',
              '201 -', '201.', '201;', '201a', 'a201', '201+', '++201', '+', '-', ' ', '201%', '201\n', '\t201', '1_000', '1,000', '201\0', "201'", '(201)', '#201', '201\u0662'):
        yield 'u16s', (t,), exp(lambda: str(O.u16_text(t)))
    yield RANDOM
    while True:
        k = r.random()
        if k < .3:
            b = rbytes(r, r.choice((0, 1, 2, 3, 7, 16, 33, 64)))
            yield 'tostr', (b,), hexs(b)
            t = hexcase(r, hexs(b))
            yield 'hexs', (t,), hexs(b)
            yield 'hexstrict', (t,), hexs(b)
        elif k < .75:
            t = ''.join(r.choice(('0', '9', 'a', 'f', 'A', 'F', '5', 'e', ' ', '  ', 'g', 'G', ':', '\n', '\u00e9', '@', '`', '/')) for _ in range(r.randrange(20)))
            if r.random() < .4:
                t = ''.join(c for c in t if c in O.HEX)
                if r.random() < .2:
                    t += r.choice('gG:@`/ ')
            if r.random() < .1:
                t = r.choice(HEXDECOR) + t
            t = words(r, t)
            yield 'hexs', (t,), hexs(O.hex_lenient(t))
            yield 'hexstrict', (t,), exp(lambda: hexs(O.hex_strict(t)))
        elif k < .8:
            t = ''.join(r.choice('0123456789') for _ in range(r.randrange(7)))
            for _ in range(r.choice((0, 1, 1, 2))):
                i = r.choice((0, len(t), r.randrange(len(t) + 1)))
                t = t[:i] + r.choice(' \t\n+-_.,;:abxe%#\u00e9\u0663\u3000\0') + t[i:]
            t = words(r, t)
            yield 'u16s', (t,), exp(lambda: str(O.u16_text(t)))
            n = r.getrandbits(r.randrange(33))
            yield 'digits', (n,), str(len(str(n)))
        elif k < .85:
            b = b'\0' * r.randrange(5) + rbytes(r, r.randrange(5))
            e = b
            while len(e) > 1 and e[0] == 0:
                e = e[1:]
            yield 'trim', (b,), hexs(e)
        else:
            b = rbytes(r, r.randrange(9))
            yield 'ints', (b,), (str(int.from_bytes(b, 'big')) if len(b) <= 4 else '') + ' ' + str(int.from_bytes(b, 'big'))


def panics(rec):
    """the call is refused"""
    return 'PANIC' in rec


def neutral(r, b):
    return b


def good_value(r, tag):
    """a value that the tag's decoder is likely to accept"""
    d = O.DECODER.get(hexs(tag))
    if d is None:
        return rbytes(r, r.choice((0, 1, 2, 5, 16, 17, 40)))
    if r.random() < .06:
        return rbytes(r, r.choice((0, 1, 2, 3, 5, 8, 32)))
    m = near(r, 0, 600, .05)
    if m is not None:
        return rbytes(r, m)
    if d in ('TransactionType', 'TerminalType', 'PosEntryMode'):
        return bytes([r.choice([v for (_, vs, _) in O.ENUMS[d][2] for v in vs])])
    if d == 'AuthorisationResponseCode':
        return r.choice([v for (_, vs, _) in O.ENUMS[d][2] for v in vs] + ['ZZ', 'Y1']).encode()
    if d == 'ServiceCode':
        return bytes([r.randrange(10), r.randrange(10) * 16 + r.randrange(10)])
    if d == 'CardholderVerificationMethodList':
        x = rbytes(r, 8) if r.random() < .5 else b'\0' * 8
        v = near(r, 0, 2 ** 32 - 1, .3)
        if v is not None:
            x = r.choice((v.to_bytes(4, 'big') + x[4:], x[:4] + v.to_bytes(4, 'big'), v.to_bytes(4, 'big') * 2))
        return x + b''.join(bytes([r.choice((0, 1, 2, 3, 4, 5, 0x1E, 0x1F, 0x3F, 0x20)) | r.choice((0, 0x40, 0x80)), r.choice((*range(12), 0xFF))]) for _ in range(r.randrange(5) if r.random() < .96 else near(r, 0, 600, .7) or r.choice((9, 17, 40, 122, 130, 256, 300))))
    if d == 'IssuerApplicationData':
        if (INTS or BYTES) and r.random() < .5:
            b = bytearray(rbytes(r, 32))
            b[0] = b[16] = 0x0F
            b[1] = b[1] if r.random() < .1 else r.choice((0xA5, 0xA6))
            return bytes(b)
        return b'\x0f' + bytes([r.choice((0xA5, 0xA6))]) + rbytes(r, 14) + b'\x0f' + rbytes(r, 15)
    if d == 'CardholderVerificationMethodResults':
        return bytes([r.choice((0, 1, 0x42, 0x1E, 0x5F, 0x3F, 0x20)), r.choice((0, 3, 9, 10, 0x55)), r.choice((0, 1, 2))])
    n = 5 if d.startswith('IssuerAction') else O.BITFLAGS[d][0]
    return rbytes(r, n)


def rproc(r, depth=2, n=None):
    out = b''
    for _ in range(n if n is not None else r.choice((1, 1, 2, 3, 4))):
        if depth and r.random() < .35:
            t = rtag(r, .4, 1)
            v = rproc(r, depth - 1)
            if r.random() < .1:
                v = mutate(r, v)
        else:
            t = bytes.fromhex(r.choice(sorted(O.DECODER))) if r.random() < .4 else rtag(r, .6)
            v = good_value(r, t) if r.random() < .95 else b'**'
        out += t + rlen(r, len(v)) + v
    return out


def shape(nodes):
    return '[' + ''.join('(%s|%s|%s|%s|%s)' % (hexs(x.tag), O.CLASS[x.cls], ('Primitive', 'Constructed')[x.cons],
                                               '*' if x.data is None else hexs(x.data), shape(x.kids)) for x in nodes) + ']'


def rec_shape(rec):
    """a processed record without what the tags were decoded as"""
    import re
    return re.sub(r'\([RAP]\|[^|]*\|[^|]*\|', '(', rec)


def is_error(rec):
    return rec.startswith('E')


def tlv(t, v):
    n = len(v)
    k = (n.bit_length() + 7) // 8
    return t + (bytes([n]) if n < 128 else bytes([0x80 | k]) + n.to_bytes(k, 'big')) + v


def many(n):
    """n data objects whose tags and values differ, none with a decoder"""
    return b''.join(tlv(b'\xDF' + bytes([0x80 | i >> 7 & 0x7F, i & 0x7F]), b'A' * (i % 3)) for i in range(n))


def sized():
    """blocks with many objects: at the outermost level, and inside a constructed object"""
    for n in SIZES:
        if n < 20000:
            b = many(n)
            yield b
            yield tlv(b'\x70', b) + tlv(b'\x50', b'A')
            if n < 300:
                yield b''.join(tlv(b'\x77', many(i % 4)) for i in range(n))
                yield nested(n, b'\x50\x01A\x70\x00') if n < 240 else b''
        if n < 70000:
            yield tlv(b'\x50', pattern(n)) + b'\x5A\x01\x11'
            yield tlv(b'\x70', tlv(b'\xDF\x01', pattern(n)) + b'\x5A\x01\x11')
        if n < 300:
            yield b'\x9F' + b'\xFF' * n + b'\x01\x01A\x5A\x01\x11'


def g_C08(r, tier):
    def case(b, m):
        try:
            nodes = O.ber(b, m)
        except Err:
            return None
        want = shape(nodes)

        def ok(rec, want=want):
            """the decoded tree, or an error for the whole block"""
            return is_error(rec) or rec_shape(rec) == want
        return 'proc', ('ber', ''.join(m), b, 0), ok
    for b in sized():
        c = case(b, ['*'])
        if c:
            # (no object here has a decoder that could refuse it)
            def ok(rec, f=c[2]):
                """the decoded tree"""
                return not is_error(rec) and f(rec)
            yield c[0], c[1], ok
    yield RANDOM
    while True:
        b = rproc(r) if r.random() < .8 else rber(r, 3, .1)
        c = case(b, rmasks(r))
        if c:
            yield c


def g_C09(r, tier):
    for n in (1, 2):
        for t in itertools.product(range(256), repeat=n):
            b = bytes(t)
            yield 'ident', (b,), O.TAGS.get(hexs(b), '-')
    for x in range(256):
        yield 'basic', (bytes([x, 0x20]),), '%s|%s|%s|%s' % (hexs(bytes([x, 0x20])), O.TAGS.get(hexs(bytes([x, 0x20])), '-'), O.CLASS[x >> 6], ('Primitive', 'Constructed')[x >> 5 & 1])
    yield 'basic', (b'',), 'EByteCountIncorrect { type: Greater, expected: 1, found: 0 }'
    yield 'ident', (b'',), '-'
    yield RANDOM
    while True:
        k = r.random()
        t = bytes.fromhex(r.choice(KNOWN)) if k < .7 else rtag(r, 0)
        if k < .6:
            x = r.randrange(4)
            t = (t + rbytes(r, r.randrange(1, 4)), b'\0' + t, t + b'\0', rbytes(r, 1) + t)[x]
        k = r.random()
        if k < .4:
            yield 'ident', (t,), O.TAGS.get(hexs(t), '-')
        elif k < .6:
            yield vcase('TagBasicInfo', t, r.randrange(3))
        else:
            yield 'basic', (t,), '%s|%s|%s|%s' % (hexs(t), O.TAGS.get(hexs(t), '-'), O.CLASS[t[0] >> 6], ('Primitive', 'Constructed')[t[0] >> 5 & 1])


def g_C10(r, tier):
    def case(t, data):
        raw = b'*' if data is None else b'n' + data

        def f():
            return '|'.join(['same'] + [x for x in O.process_tag(t, data) if x])
        return 'tagp', (t, raw), exp(f)
    for k in KNOWN:
        t = bytes.fromhex(k)
        yield case(t, None)
        for n in range(36):
            yield case(t, b'\0' * n)
            yield case(t, b'\xff' * n)
    for n in SIZES:
        if n < 70000:
            for t in (b'\x5A', b'\x50', b'\x9F\x99\x01', b'\xDF\x01', b'\x95', b'\x9F\x10', b'\x8E', b'\x70', b'\x5F\x30'):
                if n < 300 or t in (b'\x50', b'\xDF\x01', b'\x95'):
                    yield case(t, pattern(n))
    for k in sorted(O.DECODER):
        t = bytes.fromhex(k)
        for _ in range(40):
            v = good_value(r, t)
            yield case(t, v)
            yield 'dec', (O.DECODER[k], v, t), dec_rule(O.DECODER[k], v)
        if O.DECODER[k] in ('TransactionType', 'TerminalType', 'PosEntryMode'):
            for x in range(256):
                yield case(t, bytes([x]))
        for v in [good_value(r, t) for _ in range(3)]:
            for w in reshaped(v):
                yield case(t, w)
    yield RANDOM
    while True:
        t = bytes.fromhex(r.choice(sorted(O.DECODER))) if r.random() < .7 else rtag(r, .5)
        yield case(t, good_value(r, t) if r.random() < .9 else None)


def dec_rule(name, v):
    def f(rec):
        """the dispatch on the tag produced what the decoder produces"""
        return 'DIFFERENT' not in rec and '|type' not in rec
    return f


def bits_text(name, b, texts=True):
    v = O.bits_of(name, b)
    return hexs(v.binary) + ''.join(';%d,%d,%s,%s' % x for x in v.ranges)


BITS = list(O.BITFLAGS) + ['CardholderVerificationMethodResults']


def nbytes(n):
    return 3 if n == 'CardholderVerificationMethodResults' else O.BITFLAGS[n][0]


def rbits(r, name):
    n = nbytes(name)
    k = r.random()
    if k < .3:
        b = rbytes(r, n)
    elif k < .6:
        b = bytearray(n)
        for _ in range(r.choice((1, 1, 2, 3))):
            b[r.randrange(n)] |= 1 << r.randrange(8)
        b = bytes(b)
    else:
        b = bytes(r.getrandbits(8) & r.getrandbits(8) for _ in range(n))
    if (INTS or BYTES) and r.random() < .3:
        b = rbytes(r, n)
    if name == 'CommonCoreIdentifier' and r.random() < .8:
        b = bytes([r.choice((0xA5, 0xA6))])
    if name == 'CardholderVerificationMethodResults':
        b = b[:2] + bytes([r.choice((0, 1, 2, 2, 2, r.getrandbits(8)))])
    return b


def each_bits():
    for name in BITS:
        n = nbytes(name)
        for m in range(2 * n + 4):
            if m != n:
                yield name, b'\0' * m
        for bit in range(8 * n):
            x = 1 << bit
            yield name, x.to_bytes(n, 'big')
            yield name, (x ^ (256 ** n - 1)).to_bytes(n, 'big')
        if n <= 2:
            for t in range(0, 256 ** n, 1 if n == 1 else 3):
                yield name, t.to_bytes(n, 'big')
        else:
            for i in range(n):
                for x in range(256):
                    b = bytearray(n)
                    b[i] = x
                    yield name, bytes(b)


def g_C11(r, tier):
    def drop(rec):
        return rec.split(';')[0] + ''.join(sorted(';' + x.split(',')[-1] for x in rec.split(';')[1:]))

    def case(name, b):
        e = exp(lambda: bits_text(name, b))

        def ok(rec, e=e):
            """same kept bits, same meanings"""
            if rec.startswith('E') or e.startswith('E'):
                return rec == e
            g, w = rec.split(';', 1), e.split(';', 1)
            return g[0] == w[0] and texts(rec) == texts(e)
        return 'bits', (name, b), ok
    for name, b in each_bits():
        yield case(name, b)
    for name in BITS:
        for f in (0, 0xA5, 0xFF):
            for w in reshaped(bytes([f]) * nbytes(name)):
                yield case(name, w)
    yield RANDOM
    while True:
        name = r.choice(BITS)
        yield case(name, rbits(r, name))


def ranges(rec):
    import re
    return re.findall(r';(\d+),(\d+),(Normal|Warning|Error),((?:(?!;\d+,\d+,(?:Normal|Warning|Error),).)*)', rec, re.S)


def texts(rec):
    return sorted(x[3] for x in ranges(rec))


def g_C12(r, tier):
    def case(name, b):
        e = exp(lambda: bits_text(name, b))

        def ok(rec, e=e):
            """same ranges in the same order, with the same severity"""
            if rec.startswith('E') or e.startswith('E'):
                return True
            return [x for x in ranges(rec)] == [x for x in ranges(e)]
        return 'bits', (name, b), ok
    for name, b in each_bits():
        yield case(name, b)
    yield RANDOM
    while True:
        name = r.choice(BITS)
        yield case(name, rbits(r, name))


def g_C13(r, tier):
    for en, (typ, err, vs) in O.ENUMS.items():
        if typ == 'u8':
            for v in range(256):
                yield 'enumv', (en, v), exp(lambda: O.enum_variant(en, v)[1])
    for a in range(0x20, 0x7F):
        for b in range(0x20, 0x7F):
            s = chr(a) + chr(b)
            yield 'enumv', ('AuthorisationResponseCode', s), exp(lambda: O.enum_variant('AuthorisationResponseCode', s)[1])
    for s in ('', '0', '000', '\u00e9', '00 ', ' 00'):
        yield 'enumv', ('AuthorisationResponseCode', s), exp(lambda: O.enum_variant('AuthorisationResponseCode', s)[1])
    for name in O.ONE_BYTE:
        for v in range(256):
            yield vcase(name, bytes([v]))
        for n in (0, 2, 3, 4):
            yield vcase(name, b'\0' * n)
            yield vcase(name, b'\x21' * n)
    for v in (b'00', b'05', b'Y1', b'96'):
        for w in reshaped(v):
            yield vcase('AuthorisationResponseCode', w)
    for v in (b'\x00', b'\x20', b'\x21', b'\x05', b'\x91'):
        for w in reshaped(v):
            for name in O.ONE_BYTE:
                yield vcase(name, w)
    yield RANDOM
    while True:
        k = r.random()
        b = rbytes(r, r.choice((0, 1, 2, 2, 2, 3, 4)))
        if k < .5:
            b = bytes(r.choice(b'0123456789YZ') for _ in range(2))
        if k > .95:
            b = r.choice(('\u00e9', '\u0660', '\x80')).encode('utf-8')
        yield vcase('AuthorisationResponseCode', b)
        yield vcase(r.choice(O.ONE_BYTE), b)


def vcase(name, b, ind=0, sevcol=1, colour=None):
    if colour is None:
        colour = int((sum(b) + len(b)) % 5 == 0)
    def f():
        o = O.Out(bool(colour))
        O.show_value(name, o, b, ind, bool(sevcol))
        return o.text()
    return 'value', (name, b, ind, sevcol, colour), exp(f)


def g_C14(r, tier):
    L = 'CardholderVerificationMethodList'
    R = 'CardholderVerificationMethodResults'

    def obs(name, b, **k):
        return vcase(name, b, **k)
    for n in range(40):
        yield obs(L, b'\0' * n)
        yield obs(L, bytes(range(n)))
    for m in range(256):
        for c in (0, 3, 6, 9, 10):
            yield obs(L, b'\0' * 8 + bytes([m, c]))
        yield obs(L, b'\0' * 8 + bytes([0x1F, m]))
        yield obs(L, b'\0' * 7 + b'\x01' + bytes([0x1F, m]))
        yield obs(R, bytes([m, 0, 2]))
        yield obs(R, bytes([2, m, 2]))
        yield obs(R, bytes([2, 0, m]))
    for v in (0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10 ** 9, 2 ** 32 - 1):
        for w in (0, 5, 1000, 2 ** 32 - 1):
            yield obs(L, v.to_bytes(4, 'big') + w.to_bytes(4, 'big') + b'\x1f\x03')
    yield obs(L, bytes(8) + b'\x42\x03' * 122)
    for n in (9, 10, 11, 16, 17, 32, 33, 63, 64, 65, 99, 100, 101, 121, 122, 123, 127, 128, 129, 255, 256, 257, 300, 1000):
        yield obs(L, bytes(8) + b''.join(bytes([(0x41, 0x42, 0x43, 0x44, 0x5E, 0x1F)[i % 6], i % 10]) for i in range(n)))
        yield obs(L, bytes(8) + b'\x42\x03' * n + b'\x01')
    for v in (bytes(8), bytes(8) + b'\x42\x03', b'\0\0\0\x64\0\0\x01\0\x41\x06\x1F\x00'):
        for w in reshaped(v):
            yield obs(L, w)
    for v in (b'\x42\x03\x02', b'\x1F\0\0'):
        for w in reshaped(v):
            yield obs(R, w)
    for i in range(6):
        for c in range(11):
            # (the only rule that refers to an amount, in every place)
            yield obs(L, bytes(8) + b'\x42\x03' * i + bytes([0x41, c]) + b'\x1F\x00' * (5 - i))
    yield RANDOM
    while True:
        if r.random() < .7:
            yield obs(L, good_value(r, b'\x8e'), ind=r.randrange(3))
        else:
            yield obs(R, rbits(r, R), ind=r.randrange(3))


def g_C15(r, tier):
    I = 'IssuerApplicationData'
    base = bytes.fromhex('0FA501A23030100000000000000000000F010000000000000000000000000000')
    for n in range(70):
        yield vcase(I, (base + bytes(64))[:n])
    for i in (0, 1, 2, 16):
        for x in range(256):
            b = bytearray(base)
            b[i] = x
            yield vcase(I, bytes(b))
    for i in range(32):
        for x in range(0, 256, 5):
            b = bytearray(base)
            b[i] = x
            yield vcase(I, bytes(b))
    for f in (0, 0xFF, 0x0F, 0x5A):
        b = bytearray([f]) * 32
        b[0] = b[16] = 15
        for i in (0, 1, 16):
            for x in range(256):
                c = bytearray(b)
                c[1] = 0xA6
                c[i] = x
                yield vcase(I, bytes(c))
        for x in range(256):
            c = bytearray(b)
            c[1] = 0xA5
            c[0] = c[16] = x
            yield vcase(I, bytes(c))
            c[0], c[16] = 15, 15
            c[8] = c[15] = c[17] = c[31] = x
            yield vcase(I, bytes(c))
        b[1] = 0xA5
        for w in reshaped(bytes(b)):
            yield vcase(I, w)
    yield RANDOM
    while True:
        b = good_value(r, b'\x9f\x10')
        yield vcase(I, b, ind=r.randrange(3))


def g_C16(r, tier):
    def case(n):
        def f():
            o = O.Out(False)
            O.show_service_code(o, n, 0)
            return o.text()
        return 'svc', (n,), exp(f)
    for n in range(1100):
        yield case(n)
    for n in (0, 1, 2, 3, 4, 5):
        yield vcase('ServiceCode', b'\x02\x20\0\0\0'[:n])
    for n in range(0, 65536, 1):
        yield vcase('ServiceCode', n.to_bytes(2, 'big'))
    for n in range(1100, 65536, 7):
        yield case(n)
    for v in (b'\x02\x20', b'\x00\x00', b'\x09\x99', b'\x02\x0F'):
        for w in reshaped(v):
            yield vcase('ServiceCode', w)
    for s in ('', '0', '000', '220', ' 220 ', '+220', '-1', '65535', '65536', '1e2', '0x10', '00000220', '\u0662', '\u3000201', '2 01'):
        yield 'u16s', (s,), exp(lambda: str(O.u16_text(s)))
    for _ in range(20000):
        s = ''.join(r.choice('0123456789 +-a') for _ in range(r.randrange(7)))
        yield 'u16s', (s,), exp(lambda: str(O.u16_text(s)))


def g_C17(r, tier):
    def case(m, b):
        try:
            nodes = O.process(O.ber(b, m))
        except Err:
            return None
        O.sort(nodes)
        want = shape(nodes)

        def ok(rec):
            """children and roots in ascending tag order, equal tags in input order"""
            return rec_shape(rec) == want
        return 'proc', ('ber', ''.join(m), b, 1), ok
    tags = [bytes.fromhex(x) for x in ('42', '50', '5A', '5F20', '5F24', '9F02', '9F03', '9F33', 'DF01', 'DF8101', '70', '77', '6F', 'BF0C', 'FF01', '00', '7F21', 'FF')]

    def blk(depth):
        out = b''
        for i in range(r.randrange(0, 6) if r.random() < .97 else r.randrange(20, 60)):
            t = r.choice(tags)
            if t == b'\xff':
                t = rtag(r, 0)
            if t[0] & 0x20 and depth and hexs(t) not in O.DECODER:
                v = blk(depth - 1)
            else:
                v = bytes([i]) * r.choice((0, 1, 2)) if hexs(t) not in O.DECODER else good_value(r, t)
            out += t + rlen(r, len(v)) + v
        return out
    for n in (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 40, 300):
        # long tags which differ in one byte only
        for i in {0, n // 2, n - 1}:
            ts = []
            for x in (0x01, 0x7f, 0x02, 0x00, 0x40):
                y = bytearray(b'\x85' * (n - 1) + b'\x11')
                y[i] = y[i] & 0x80 | x
                ts.append(b'\x1f' + bytes(y))
                ts.append(b'\x9f' + bytes(y))
            c = case(['*'], b''.join(t + b'\x01' + bytes([j]) for j, t in enumerate(ts + ts) if hexs(t) not in O.DECODER))
            yield c
            yield case(['*'], b''.join(b'\x70' + rlen(r, len(x)) + x for x in [c[1][2]] * 2))
    for n in SIZES:
        if n < 10000:
            b = b''.join(tags[i * 7 % 10] + b'\x02' + i.to_bytes(2, 'big') for i in range(n) if hexs(tags[i * 7 % 10]) not in O.DECODER)
            for x in (b, tlv(b'\x70', b), b''.join(tlv(b'\x50', i.to_bytes(2, 'big')) for i in range(n)),
                      b''.join(b'\xDF' + bytes([0x80 | j >> 7 & 0x7F, j & 0x7F, 0]) for j in range(n, 0, -1))):
                yield case(['*'], x)
        if n < 250:
            yield case(['*'], nested(n, b'\x9F\x03\x01A\x5A\x00\x42\x00\x5A\x01B'))
    yield RANDOM
    while True:
        c = case(['*'], blk(3))
        if c:
            yield c


def g_C18(r, tier):
    for n in range(40):
        b = bytes((i * 7 + n) & 0xFF for i in range(n))
        for per in (1, 2, 8, 15, 16, 17):
            for ind in (0, 1, 3):
                yield 'pb', (per, ind, b), O.dump(b, per, ind)
                yield 'pbp', (per, ind, b), O.dump_pretty(b, per, ind)
    for n in (0, 1, 15, 16, 17, 32, 33, 255, 256, 257, 1000, 4096, 4097, 65536):
        b = bytes((i * 7 + n) & 0xFF for i in range(n))
        for per in (16, 1, 255, 256, 4096):
            yield 'pb', (per, 1, b), O.dump(b, per, 1)
            yield 'pbp', (per, 1, b), O.dump_pretty(b, per, 1)
    for n in (4, 7, 8, 12, 13, 15, 16, 20, 31, 32, 33, 64, 100, 200, 249):
        b = nested(n, b'\xDF\x01\x03\x41\x42\x00')
        yield 'show', ('ber', '*', b, 0, 0, 1, 0), exp(lambda: O.show_tlv('ber', b, ['*'], False, 0, True, False))
        yield 'pb', (16, n, b'\x11' * 20), O.dump(b'\x11' * 20, 16, n)
        yield 'pbp', (16, n, b'\x11' * 20), O.dump_pretty(b'\x11' * 20, 16, n)
    for n in (5, 20, 100, 257, 1000):
        b = b''.join(b'\xDF' + bytes([i & 0x7F]) + bytes([i % 3]) + b'A' * (i % 3) for i in range(n))
        yield 'show', ('ber', '*', b, 0, 0, 1, 0), exp(lambda: O.show_tlv('ber', b, ['*'], False, 0, True, False))
    for x in range(256):
        yield 'pbp', (16, 1, bytes([x])), O.dump_pretty(bytes([x]), 16, 1)
        yield 'pb', (16, 1, bytes([x])), O.dump(bytes([x]), 16, 1)
        yield 'pbs', (bytes([x]),), '%02X' % x
        yield 'ind', (x,), '\t' * x
    yield RANDOM
    while True:
        k = r.random()
        if k < .5:
            b = rbytes(r, near(r, 0, 5000) or r.randrange(70))
            per, ind = near(r, 1, 4096) or r.choice((16, 16, 1, 3, 32)), r.randrange(4) if r.random() < .9 else r.randrange(256)
            yield r.choice((('pb', (per, ind, b), O.dump(b, per, ind)), ('pbp', (per, ind, b), O.dump_pretty(b, per, ind)),
                            ('pbs', (b,), hexs(b))))
        else:
            # reports of blocks whose tags have no decoder of their own, so that only the report is judged
            b = rtlv(r, 2, .6)
            try:
                ns = O.ber(b, ['*'])
            except Err:
                continue
            if has_decoder(ns):
                continue
            ind, sc, col = r.randrange(3) if r.random() < .9 else r.randrange(240), r.randrange(2), r.randrange(2)
            yield 'show', ('ber', '*', b, 0, ind, sc, col), exp(lambda: O.show_tlv('ber', b, ['*'], False, ind, bool(sc), bool(col)))


def has_decoder(ns):
    return any(hexs(x.tag) in O.DECODER or has_decoder(x.kids) for x in ns)


def g_C19(r, tier):
    first = True
    for name, b in each_bits():
        if len(b) == nbytes(name):
            yield vcase(name, b)
            if first or b.count(0) < len(b) - 1:
                yield vcase(name, b, 1, 1, 1)
                yield vcase(name, b, 2, 0, 1)
    yield RANDOM
    while True:
        name = r.choice(BITS)
        yield vcase(name, rbits(r, name), r.randrange(4), r.randrange(2), r.randrange(2))


def g_C21(r, tier):
    t = {'always': 'Always always Always Always', 'ansi': 'AlwaysAnsi ansi AlwaysAnsi AlwaysAnsi', 'auto': 'Auto auto Auto Auto', 'never': 'Never never Never Never'}
    for k, e in t.items():
        for m in range(2 ** len(k)):
            s = ''.join(c.upper() if m >> i & 1 else c for i, c in enumerate(k))
            yield 'colour', (s,), e
        for s in (k + ' ', ' ' + k, k[:-1], k + 'x', k + k, k[:1], k + '\0', '"' + k + '"', k + '=', '-' + k, '--' + k):
            yield 'colour', (s,), 'EUnsupported'
        for c in [chr(x) for x in range(1, 0x180)] + list('\u00a0\u1680\u2000\u2028\u202f\u205f\u3000\ufeff\u200b\u212a\u017f\u0130'):
            for s in (c + k, k + c, c + k + c, k[:2] + c + k[2:], c + k[1:], k[:-1] + c):
                yield 'colour', (s,), t.get(s.lower(), 'EUnsupported')
    yield 'colour', ('',), 'EUnsupported'
    for s in ('yes', 'no', 'true', 'false', '0', '1', 'on', 'off', 'color', 'colour', 'none', 'force', 'tty', 'always-ansi', 'AlwaysAnsi', 'alwaysansi', 'always_ansi', 'if-tty', 'default', *WORDS):
        yield 'colour', (s,), t.get(s.lower(), 'EUnsupported')
    yield 'colourdef', (), 'Auto'
    for k, e in (('always', 'Always'), ('ansi', 'AlwaysAnsi'), ('auto', 'Never'), ('never', 'Never')):
        yield 'colourtty', (k,), 'Ok(%s)' % e
    for k in ('always', 'ansi', 'auto', 'never', None):
        for tty in (0, 1):
            yield cli('tvr', '8000008000', [] if k is None else ['--colour=' + k], tty=tty, colour=k in ('always', 'ansi') or k in ('auto', None) and tty == 1)
            yield cli('tvr', '8000008000', [] if k is None else ['--colour=' + k], tty=tty, other_tty=1, colour=k in ('always', 'ansi') or k in ('auto', None) and tty == 1)
    for w in WORDS + ['CLICOLOR', 'CLICOLOR_FORCE', 'FORCE_COLOR', 'COLORTERM', 'PEMV_COLOUR', 'COLOR', 'CI', 'TERM_PROGRAM', 'LS_COLORS', 'PEMV_FORCE_COLOUR']:
        if w.replace('_', '').isalnum():
            for x in ('1', '0', '', 'always', 'never', 'truecolor'):
                for k in ('auto', 'always', 'never', None):
                    yield cli('tvr', '8000008000', [] if k is None else ['--colour=' + k], env={w: x}, colour=k == 'always')
                yield cli('tvr', '8000008000', env={w: x}, tty=1, colour=True)
                yield cli('tvr', '8000008000', ['--colour=never'], env={w: x}, tty=1)
    for term in ('dumb', 'xterm-256color', 'linux', 'unknown', 'emacs'):
        for e in ({'TERM': term}, {'TERM': term, 'NO_COLOR': '1'}, {'TERM': term, 'CI': 'true', 'NO_COLOR': ''}):
            for tty in (0, 1):
                for k in ('always', 'ansi', 'never'):
                    yield cli('tvr', '8000008000', ['--colour=' + k], env=e, tty=tty, colour=k != 'never')
                    yield cli('tvr', '8000008000', env=dict(e, PEMV_CLI_COLOUR=k), tty=tty, colour=k != 'never')
    def rejected(rec):
        """no report"""
        return rec == '\x01PANIC' or refused(rec)
    for w in ('no', 'yes', 'none', 'off', 'on', 'force', 'colour', 'true', '1', 'alway', 'always-ansi', 'AlwaysAnsi', 'tty', 'default', 'auto ansi', 'nev', 'ansi256', 'a', *[x for x in WORDS if x.isalnum() and x.lower() not in t]):
        # no other name stands for a choice, wherever it is written
        yield 'cli', (json.dumps(dict(argv=['--tvr', '8000008000'], env={'PEMV_CLI_COLOUR': w}, files={}, tty=0)),), rejected
        yield 'cli', (json.dumps(dict(argv=['--tvr', '8000008000'], env={}, files={'pemv.toml': '[default]\ncli_colour = "%s"\n' % w}, tty=0)),), rejected
        yield 'cli', (json.dumps(dict(argv=['--tvr', '8000008000', '--colour=' + w], env={}, files={}, tty=0)),), rejected
    for k in t:
        yield cli('tvr', '8000008000', files={'pemv.toml': '[default]\ncli_colour = "%s"\n' % k}, colour=k in ('always', 'ansi'))
        yield cli('tvr', '8000008000', env={'PEMV_CLI_COLOUR': k}, colour=k in ('always', 'ansi'))
    for _ in range(2000):
        s = ''.join(r.choice('alwysnieuto') for _ in range(r.randrange(8)))
        yield 'colour', (s,), t.get(s, 'EUnsupported')


def cli(cmd, arg, options=(), env=None, files=None, tty=0, masks=('*',), sort=True, colour=False, alias=None, other_tty=0):
    out, err = O.command(cmd, arg, masks, sort, colour)
    argv = [alias or '--' + cmd, arg] if (alias or '--').startswith('--') is False else [(alias or '--' + cmd) + '=' + arg]
    spec = dict(argv=argv + list(options), env=env or {}, files=files or {}, tty=tty, other_tty=other_tty)

    def ok(rec):
        p = rec.split('\x02')
        return len(p) == 3 and p[0] == out and (p[1] == err or other_tty)
    ok.__doc__ = 'standard output and standard error are exactly ' + repr((out, err))[:1500]
    return 'cli', (json.dumps(spec),), ok


def refused(rec):
    """nothing on standard output, an error on standard error"""
    p = rec.split('\x02')
    return len(p) == 3 and p[0] == '' and p[1] != ''


CLIVALUES = {
    'tvr': ['8000008000', '0000000000', 'FFFFFFFFFF', '80 00 00 80 01', '8000', '80000080001', 'zz', '008000800000'],
    'ccd-iad': ['0FA501A23030100000000000000000000F010000000000000000000000000000', '0F', '0FA501A23030100000000000000000000E010000000000000000000000000000'],
    'ccd-cvr': ['0000000000', 'A530101200', 'FFFFFFFFFF', '00'],
    'tsi': ['E800', '0000', 'FFFF', 'E8', 'E80000'],
    'cvm-results': ['1E0300', '420301', '010002', '5E1F', '020300', '3F0000'],
    'cvm-list': ['000000000000000042031E031F00', '00000064000000C84201440305031F', '0000', '000000000000000042'],
    'identify': ['5A', '9F02', '9F', 'DF8129', 'q', '6F', '009A', '9a'],
    'service-code': ['220', '999', '1000', '000', '65536', 'abc', ' 201 ', '-1', '+120', '77'],
    'auto-tlv': ['9F02060000000001005A0841111111111111115F24032512319C0100', 'T9F02:06:h000000000100 T5A:08:a****************', '5A', 'q', '9C01009F02', '9505FFFFFFFFFF9B02E800', '9502FFFF',
                 '5A022A2A'],
    'ber-tlv': ['9F02060000000001005A0841111111111111115F24032512319C0100', '6F0B8407A0000000041010500100', '5A', '', '9502FFFF', '9F1003010203', '5A0223235A022A2A', '9C01019C01009C0109'],
    'ingenico-tlv': ['T9F02:06:h000000000100 T5A:08:h****************', 'T5A:04:a#### T9C:01:h00', 'T9C:01:h00 TDF01:01:a* S99:01:h00 T5A:02:h****', 'T5A', 'T9C:01:h0', 'T8A:02:a00'],
}


def rcli(r):
    c = r.choice(sorted(CLIVALUES))
    v = r.choice(CLIVALUES[c])
    if r.random() < .5:
        if c in O.COMMAND:
            n = len(O.hex_lenient(v))
            v = hexs(rbytes(r, n))
        elif c == 'ber-tlv' or c == 'auto-tlv' and r.random() < .6:
            v = hexs(rproc(r))[:4000]
        elif c == 'service-code':
            v = str(r.randrange(1200))
        elif c in ('ingenico-tlv', 'auto-tlv'):
            v = ring(r)
            if '\0' in v or any(0xD800 <= ord(x) < 0xE000 for x in v):
                v = 'T5A:01:h00'
    if c in O.COMMAND or c == 'ber-tlv' or c == 'identify' or c == 'auto-tlv' and not v[:1] == 'T':
        # hexadecimal digits as people write them
        v = hexcase(r, v)
        if r.random() < .25:
            sep = r.choice((' ', ':', '-', ', ', '\n', '_', ' 0x'[:1]))
            v = sep.join(v[i:i + 2] for i in range(0, len(v), 2))
        if r.random() < .08:
            v = r.choice(HEXDECOR) + v
        if r.random() < .08:
            v += r.choice(('0', 'h', ' ', 'F', 'zz', '\n'))
        v = words(r, v, .15)
    if v == '' or '\0' in v or v[0] == '-' and c != 'service-code':
        v = '5A'
    return c, v


def g_C23(r, tier):
    for c in sorted(CLIVALUES):
        for v in CLIVALUES[c]:
            if v:
                yield cli(c, v)
        for a in O.ALIAS[c]:
            for v in CLIVALUES[c]:
                if v and v[0] != '-':
                    yield cli(c, v, alias=a)
                    if c.endswith('-tlv') and v[0] != ' ':
                        yield cli(c, v, ['--no-sort', '--colour=always', '-m', '#'], alias=a, sort=False, colour=True, masks=['#'])
        for v in CLIVALUES[c][:3]:
            if v:
                yield cli(c, v, ['--colour=always'], colour=True)
    for s in ('++201', '+201', '201+', '+', ' 201', '201 ', '\t201\n', '0000201', '00', '7', '0', '65535', '65537', '4294967497', '0x10', '1e2', '2.0', '2,0', '2_0', '\u0662\u0660\u0661',
              '\u3000201', '201;', '=201', '201=', '201D', 'F201', '0b1', '201\u00a0', '\ufeff201', '999 ', '1000 ', '+999', '-0', '-1', '9' * 200, '0' * 200 + '9'):
        yield cli('service-code', s)
    for n in SIZES:
        if 0 < n < 5000:
            b = pattern(n, 1, 0x5F)
            for c in ('identify', 'tvr', 'cvm-list', 'ccd-iad', 'ccd-cvr', 'tsi', 'cvm-results'):
                if n < 40 or n % 256 < 2:
                    yield cli(c, hexs(b))
            yield cli('identify', '9F' + '81' * n + '02')
            yield cli('identify', '9F02' + '00' * n)
            for v in (hexs(many(n)), hexs(tlv(b'\x70', many(n))), '5A00' * (n % 1000) + '5700' * 3):
                yield cli('ber-tlv', v)
                yield cli('auto-tlv', v)
                yield cli('auto-tlv', v, ['--no-sort'], sort=False)
            yield cli('ingenico-tlv', 'T5A:01:h00,' * (n % 1000) + 'T57:01:h00')
            yield cli('auto-tlv', 'T5A:01:h00,' * (n % 1000) + 'T57:01:h00')
            yield cli('ingenico-tlv', 'T9F02:%X:a%s,T5A:01:h22' % (n, 'A' * n))
            yield cli('cvm-list', '00' * 8 + '4203' * (n % 1000))
    cs = sorted(CLIVALUES)
    for i, c in enumerate(cs):
        for d in (cs[(i + 1) % len(cs)], cs[(i + 4) % len(cs)]):
            # two commands at once: no report of only one of them
            spec = dict(argv=['--' + c, CLIVALUES[c][0], '--' + d, CLIVALUES[d][0]], env={}, files={}, tty=0)
            yield 'cli', (json.dumps(spec),), refused
    for c in ('auto-tlv', 'ber-tlv', 'ingenico-tlv'):
        for v in CLIVALUES[c]:
            if v:
                yield cli(c, v, ['--sort=false'], sort=False)
                yield cli(c, v, ['--no-sort'], sort=False)
    yield RANDOM
    while True:
        c, v = rcli(r)
        k = r.random()
        if k > .9 and v[:1] != '-':
            yield cli(c, v, alias=r.choice(O.ALIAS[c]))
        elif c.endswith('-tlv') and k < .5:
            if k < .2:
                yield cli(c, v, ['--no-sort'], sort=False)
            else:
                ms = [r.choice('*#X0\u00e9') for _ in range(r.choice((1, 1, 2)))]
                yield cli(c, v, ['-m'] + ms, masks=ms)
        elif k < .8:
            yield cli(c, v)
        else:
            how = r.choice(('always', 'ansi', 'never', 'auto'))
            tty = int(r.random() < .5)
            yield cli(c, v, ['--colour', how], tty=tty, colour=how in ('always', 'ansi') or how == 'auto' and tty == 1)


MT = '5A0223235A022A2A5A025858' + '9C0101' + '5F2A020978'
MT2 = 'T9C:01:h01 T5A:02:a## T5A:02:a** T57:02:aXX T57:02:aQQ'


def g_C20(r, tier):
    def case(file, env, opt, cmd='ber-tlv', v=MT, tty=0, prof=None):
        """file, env, opt: {colour, masks, sort}"""
        eff = dict(colour='auto', masks=['*'], sort=True)
        files, e, o = {}, {}, []
        if file is not None:
            t = ''
            if prof and r.random() < .5:
                # the default section counts for what the profile leaves open
                d = dict(colour=r.choice(('always', 'never')), masks=['?', '#'], sort=r.random() < .5)
                d = {k: x for k, x in d.items() if r.random() < .5}
                t = '[default]\n' + ('cli_colour = "%s"\n' % d['colour'] if 'colour' in d else '') + ('masking_characters = ["?", "#"]\n' if 'masks' in d else '') + \
                    ('sort_parsed_tags = %s\n' % str(d['sort']).lower() if 'sort' in d else '')
                eff.update(d)
            t += '[%s]\n' % (prof or 'default')
            if 'colour' in file:
                t += 'cli_colour = "%s"\n' % file['colour']
            if 'masks' in file:
                t += 'masking_characters = %s\n' % json.dumps(file['masks'], ensure_ascii=False)
            if 'sort' in file:
                t += 'sort_parsed_tags = %s\n' % str(file['sort']).lower()
            eff.update(file)
            if r.random() < .3:
                # the section for every profile counts before both
                g = {k: x for k, x in dict(colour=r.choice(('always', 'never')), masks=['#', 'Q'], sort=r.random() < .5).items() if r.random() < .6}
                t += '[global]\n' + ('cli_colour = "%s"\n' % g['colour'] if 'colour' in g else '') + ('masking_characters = ["#", "Q"]\n' if 'masks' in g else '') + \
                    ('sort_parsed_tags = %s\n' % str(g['sort']).lower() if 'sort' in g else '')
                eff.update(g)
            files['pemv.toml'] = t
        if 'colour' in env:
            e['PEMV_CLI_COLOUR'] = env['colour']
        if 'masks' in env:
            e['PEMV_MASKING_CHARACTERS'] = '[' + ', '.join('"%s"' % m for m in env['masks']) + ']'
        if 'sort' in env:
            e['PEMV_SORT_PARSED_TAGS'] = str(env['sort']).lower()
        if prof:
            e['PEMV_PROFILE'] = prof
        if len(files) and r.random() < .3:
            files = {'other.toml': files['pemv.toml'], 'pemv.toml': '[default]\nsort_parsed_tags = %s\nmasking_characters = ["?"]\n' % str(not eff['sort']).lower()}
            e['PEMV_CONFIG'] = 'other.toml'
        eff.update(env)
        if 'colour' in opt:
            o += r.choice((['--colour=' + opt['colour']], ['--colour', opt['colour']], ['--color=' + opt['colour']]))
        if 'masks' in opt:
            m = r.choice(('-m', '-m', '--masking', '--masking-char', '--masking-character'))
            if r.random() < .5:
                o += [m] + opt['masks']
            else:
                for x in opt['masks']:
                    o += [m, x]
        if 'sort' in opt and r.random() < .4:
            o += r.choice((['--sort'], ['--sort-parsed-tags'])) if opt['sort'] else r.choice((['--no-sort'], ['--no-sort-parsed-tags']))
        elif 'sort' in opt:
            o += [r.choice(['--sort=%s', '--sort-parsed-tags=%s']) % str(opt['sort']).lower()] if r.random() < .5 else [r.choice(['--no-sort=%s', '--no-sort-parsed-tags=%s']) % str(not opt['sort']).lower()]
        eff.update(opt)
        colour = eff['colour'] in ('always', 'ansi') or eff['colour'] == 'auto' and tty
        return cli(cmd, v, o, e, files, tty, eff['masks'], eff['sort'], bool(colour))
    yield case(None, {}, {})
    vals = dict(colour=['always', 'ansi', 'auto', 'never'], masks=[['*'], ['#'], ['X', '*'], ['Q']], sort=[True, False])
    for k in vals:
        for a in [None] + vals[k]:
            for b in [None] + vals[k]:
                for c in [None] + vals[k]:
                    yield case(*[{k: x} if x is not None else (None if i == 0 else {}) for i, x in enumerate((a, b, c))], tty=1 if k == 'colour' else 0)
    for n in range(1, 40):
        # many masking characters, of which the first, the last or one within masks something
        rest = [chr(x) for x in (list(range(0x61, 0x7B)) + list(range(0xC0, 0x100)))[:n]]
        for i in {0, n // 2, n}:
            ms = dict(masks=rest[:i] + ['#'] + rest[i:])
            yield case(None, {}, ms)
            yield case(None, ms, {})
            yield case(ms, {}, {})
            yield case(ms, {}, {}, 'ingenico-tlv', MT2)
    for ch in ',;:=|/#$%&?!@^~+._ 0179AZaz(){}<>\u00e9\u20ac\U0001F600':
        # each masking character by itself, and with others
        for ms in ([ch], ['Q', ch], [ch, '*', 'Q']):
            v = 'T5A:02:a## T57:02:a**'
            if ch.isascii():
                v += ' T42:02:a' + ch * 2
                yield case(None, {}, dict(masks=ms), 'ber-tlv', MT + '5A02' + hexs(ch.encode() * 2))
            yield case(None, {}, dict(masks=ms), 'ingenico-tlv', v)
            yield case(None, dict(masks=ms), {}, 'ingenico-tlv', v)
            yield case(dict(masks=ms), {}, {}, 'ingenico-tlv', v)
    yield RANDOM
    while True:
        def some(p):
            return {k: r.choice(vals[k]) for k in vals if r.random() < p}
        f = some(.6) if r.random() < .7 else None
        yield case(f, some(.35), some(.35), *r.choice((('ber-tlv', MT), ('ingenico-tlv', MT2), ('auto-tlv', MT), ('auto-tlv', MT2))), tty=int(r.random() < .3),
                   prof=r.choice((None, None, None, 'debug', 'work', 'prod2', 'my-profile', 'release_1', 'x', '2026', 'Debug')) if f else None)


def g_C22(r, tier):
    def d(name, b):
        o = O.Out(False)
        O.show_value(name, o, b, 0, False)
        return o.text()
    yield 'iacdef', ('IssuerActionCodeDenial',), d('IssuerActionCodeDenial', bytes(5))
    yield 'iacdef', ('IssuerActionCodeOnline',), d('IssuerActionCodeOnline', b'\xff' * 5)
    yield 'iacdef', ('IssuerActionCodeDefault',), d('IssuerActionCodeDefault', b'\xff' * 5)
    for name in sorted(O.IAC):
        for v in (b'\0' * 5, b'\xFF' * 5, b'\xF8\x10\x98\x80\x00'):
            for w in reshaped(v):
                yield vcase(name, w)
        tag = [k for k in O.DECODER if O.DECODER[k] == name][0]
        for bit in range(40):
            for w in (1 << bit, (1 << bit) ^ (2 ** 40 - 1)):
                for c in (0, 1):
                    yield vcase(name, w.to_bytes(5, 'big'), bit % 3, 1, c)
        for v in (b'\0' * 5, b'\xFF' * 5, b'\xF8\x10\x98\x80\x00'):
            for w in reshaped(v):
                # (as a data object: the same lengths)
                yield 'tagp', (bytes.fromhex(tag), b'n' + w), exp(lambda: '|'.join(['same'] + [x for x in O.process_tag(bytes.fromhex(tag), w) if x]))
    yield RANDOM
    while True:
        name = r.choice(sorted(O.IAC))
        b = rbits(r, 'TerminalVerificationResults') if r.random() < .9 else rbytes(r, r.randrange(8))
        yield vcase(name, b, r.randrange(3), r.randrange(2), r.randrange(2))


def no_crash(rec):
    """no panic, abort or hang"""
    return not rec.startswith('\x01') and '\x01PANIC' not in rec and '\x01ABORT' not in rec


def g_C02(r, tier):
    for n in (250, 251, 255, 256, 300, 700):
        yield 'show', ('ber', '*', nested(n), 1, 0, 1, 0), no_crash
        b = nested(n, b'\x9F\x10\x20' + bytes.fromhex('0FA501A23030100000000000000000000F010000000000000000000000000000'))
        yield 'show', ('ber', '*', b, 1, 0, 1, 0), no_crash
    for k in range(11):
        for n in (10 ** k - 1, 10 ** k, 10 ** k + 1, 2 ** k, 2 ** 32 - 1, 2 ** (3 * k) - 1):
            if n < 2 ** 32:
                yield 'digits', (n,), no_crash
    for n in (0, 1, 9, 99, 100, 254, 255, 256, 257, 300, 1000, 70000):
        yield 'value', ('CardholderVerificationMethodList', bytes(8) + b'\x42\x03' * n, 0, 1, 0), no_crash
        yield 'pb', (16, 1, b'\x42' * n), no_crash
        yield 'pbp', (16, 250, b'\x42' * n), no_crash
        yield 'hexs', ('4' * n,), no_crash
        yield 'auto', ('*', '4' * n), no_crash
        b = b''.join(b'\x9A\x03\x24\x03\x25' for _ in range(n))
        yield 'show', ('ber', '*', b, 1, 0, 1, 0), no_crash
        b = b'\x1f' + b'\xff' * n + b'\x01\x01\x20'
        yield 'show', ('ber', '*', b, 1, 0, 1, 0), no_crash
        yield 'show', ('ing', '*', 'T5A:%04X:a%s' % (n & 0xFFFF, '4' * (n & 0xFFFF)), 1, 0, 1, 0), no_crash
        yield 'ident', (b[:-3],), no_crash
    for b in odd_lengths():
        for p in (b'\x5A', b'\x70', b'\x9A\x01\x42\x9F\x81\x01'):
            yield 'show', ('ber', '*', p + b, 1, 0, 1, 0), no_crash
        yield 'show', ('ber', '*', tlv(b'\x70', b'\x5A' + b), 1, 0, 1, 0), no_crash
    for n in ('0', '7FFFFFFF', '7FFFFFFE', '80000000', '80000001', '40000000', '3FFFFFFF', 'FFFFFFFE', 'FFFFFFFF', '100000000', '0100000000', 'FFFFFFFFFFFFFFFF', '00000000FFFFFFFF'):
        for f in ('', 'a', 'h', 'h4', 'h41', 'a4142,', 'x'):
            for s in ('T5A:%s:%s' % (n, f), 'T9A:01:h42,T70:%s:%s,T5A:01:h42' % (n, f)):
                yield 'show', ('ing', '*', s, 1, 0, 1, 0), no_crash
                yield 'auto', ('*', s), no_crash
    for s in ('T5A:FFFFFFFF:h', 'T5A:FFFFFFFF:a', 'T::h', 'T:00:h', 'T5A::h'):
        yield 'show', ('ing', '*', s, 1, 0, 1, 0), no_crash
    for b in small_bers():
        yield 'show', ('ber', '*', b, 1, 0, 1, 0), no_crash
    for name in BITS + ['CardholderVerificationMethodList', 'IssuerApplicationData', 'TagBasicInfo', 'ServiceCode', 'AuthorisationResponseCode'] + list(O.ONE_BYTE) + list(O.IAC):
        for n in range(36):
            for f in (0, 0xFF, 0x0F, 0x30, 0x99):
                yield 'value', (name, bytes([f]) * n, 0, 1, 0), no_crash
    yield RANDOM
    while True:
        k = r.random()
        if k < .03:
            b = nested(near(r, 0, 700) or r.randrange(40), rproc(r))
            yield 'show', ('ber', '*', b, 1, 0, 1, 0), no_crash
        elif k < .35:
            b = rproc(r) if r.random() < .7 else rber(r)
            yield 'show', ('ber', ''.join(rmasks(r)), b, r.randrange(2), 0, 1, r.randrange(2)), no_crash
        elif k < .6:
            yield 'show', ('ing', ''.join(rmasks(r)), ring(r), r.randrange(2), 0, 1, 0), no_crash
        elif k < .7:
            yield 'auto', (''.join(rmasks(r)), ring(r) if r.random() < .5 else hexs(rber(r))), no_crash
        elif k < .9:
            t = bytes.fromhex(r.choice(sorted(O.DECODER)))
            v = good_value(r, t)
            if r.random() < .5:
                v = mutate(r, v)
            yield 'value', (O.DECODER[hexs(t)], v, 0, 1, 0), no_crash
        elif k < .91:
            yield 'u16s', (words(r, ''.join(r.choice('0129+- a\u00e9\u0662') for _ in range(r.randrange(9)))),), no_crash
            n = near(r, 0, 2 ** 32 - 1) or r.getrandbits(r.randrange(33))
            yield 'digits', (n,), no_crash
            yield 'svc', (n & 0xFFFF,), no_crash
        elif k < .92:
            b = rbytes(r, near(r, 0, 5000) or r.randrange(300))
            yield r.choice(('pb', 'pbp')), (near(r, 1, 4096) or r.choice((16, 16, 1, 7)), r.randrange(256), b), no_crash
            yield 'hexs', (words(r, ''.join(r.choice('0aF g\u00e9\U0001F600') for _ in range(r.randrange(30)))),), no_crash
            yield 'trim', (b'\0' * r.randrange(9) + b[:3],), no_crash
        elif k < .93:
            yield 'colour', (words(r, r.choice(('always', 'ansi', '', '\u0130', '\u1e9e', 'AUTO', 'n\u00e9ver'))),), no_crash
            yield 'enumv', (r.choice([e for e in O.ENUMS if O.ENUMS[e][0] == 'u8']), r.randrange(256)), no_crash
            yield 'mask', (''.join(rmasks(r)), rbytes(r, r.randrange(6))), no_crash
        elif k < .95:
            yield 'hexstrict', (''.join(r.choice('0aF g\u00e9') for _ in range(r.randrange(9))),), no_crash
        else:
            yield 'ident', (rbytes(r, r.randrange(5)),), no_crash


GENS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('g_C')}
