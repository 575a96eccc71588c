"""Dictionary for the counterexample search: the literals of /repo's current
source that the frozen baseline (spec/literals.json) does not have in the same
file as often. They only steer the generators; nothing is judged by them."""
import collections, hashlib, json, os, re, sys

HERE = os.path.dirname(os.path.abspath(__file__))
TOK = re.compile(r'''//[^\n]*|/\*.*?\*/|(?P<raw>b?r(?P<h>\#*)"(?P<rs>.*?)"(?P=h))|(?P<str>b?"(?:\\.|[^"\\])*")|(?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)|[^'\\])')|'[A-Za-z_]\w*|[A-Za-z_]\w*|(?P<num>0[xX][0-9A-Fa-f_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?|\[(?P<arr>(?:\s*(?:0x[0-9A-Fa-f]{1,2}|\d{1,3})(?:_?u8)?\s*,?){2,})\]''', re.S)


def unescape(s):
    m = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}
    s = re.sub(r'\\\n\s*', '', s)
    return re.sub(r'\\(x([0-9a-fA-F]{2})|u\{([0-9a-fA-F_]+)\}|.)',
                  lambda k: chr(int(k[2] or k[3].replace('_', ''), 16)) if k[2] or k[3] else m.get(k[1], k[1]), s)


def tokens(text):
    text = re.split(r'#\[cfg\(test\)\]\s*mod\b', text)[0]
    for m in TOK.finditer(text):
        if m['raw']:
            yield 's', m['rs']
        elif m['str']:
            yield 's', unescape(m['str'][m['str'].index('"') + 1:-1])
        elif m['chr']:
            yield 's', unescape(m['chr'][m['chr'].index("'") + 1:-1])
        elif m['num']:
            yield 'i', int(m['num'].replace('_', ''), 0 if m['num'][:2] in ('0x', '0X', '0b', '0o') else 10)
        elif m['arr']:
            v = [int(x, 16) if x[:2] == '0x' else int(x) for x in re.findall(r'0x[0-9A-Fa-f]+|\d+', re.sub(r'_?u8', '', m['arr']))]
            for x in v:
                yield 'i', x
            if all(x < 256 for x in v):
                yield 'b', bytes(v).hex()


def collect(repo):
    out = {}
    for d, _, fs in os.walk(os.path.join(repo, 'src')):
        for f in sorted(fs):
            if f.endswith('.rs'):
                p = os.path.join(d, f)
                c = collections.Counter(json.dumps(x) for x in tokens(open(p, encoding='utf-8', errors='replace').read()))
                out[os.path.relpath(p, repo)] = dict(sorted(c.items()))
    return out


def digest(repo):
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(repo, 'src'))):
        for f in sorted(fs):
            h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()


def changed(repo):
    return json.load(open(f'{HERE}/../spec/literals.json'))['digest'] != digest(repo)


def new(repo):
    """(texts, integers, byte strings) that were not there before"""
    base = json.load(open(f'{HERE}/../spec/literals.json'))
    s, i, b = set(), set(), set()
    for f, c in collect(repo).items():
        for k, n in c.items():
            if n > base.get(f, {}).get(k, 0):
                t, v = json.loads(k)
                (s if t == 's' else i if t == 'i' else b).add(v)
    s = {x for x in s if 0 < len(x) <= 40 and '{' not in x}
    return sorted(s), sorted(i), sorted(bytes.fromhex(x) for x in b)


if __name__ == '__main__':
    json.dump(dict(collect(sys.argv[1]), digest=digest(sys.argv[1])), open(f'{HERE}/../spec/literals.json', 'w'), indent=0, sort_keys=True)
