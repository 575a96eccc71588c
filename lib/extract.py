"""Mechanical extraction of real items from /repo's Rust source for Verus.

A unit template (spec/verus/*.rs) is Verus source holding the specification
(spec functions, lemmas, contracts on dependencies) plus `//@@ ...` directives
that are replaced by the text of the real item in /repo, with contracts, loop
invariants and proof blocks inserted. The body text is kept token for token,
except for the listed lowerings.
"""
import re, os, threading
import overlay

REPO = os.environ.get('PEMV_REPO', '/repo')


class Lost(Exception):
    """The source no longer has the shape the contract is attached to."""


TOK = re.compile(r'''
  (?P<ws>\s+)
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*.*?\*/)
 |(?P<str>b?"(?:[^"\\]|\\.)*")
 |(?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
 |(?P<chr>b?'(?:[^'\\\n]|\\(?:u\{[^}]*\}|x..|.))')
 |(?P<life>'[A-Za-z_]\w*)
 |(?P<id>(?:r\#)?[A-Za-z_]\w*)
 |(?P<num>\d[\w]*(?:\.\d\w*)?)
 |(?P<op>\.\.=|\.\.\.|<<=|>>=|->|=>|::|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|<<|\.\.|.)
''', re.X | re.S)


def lex(s):
    """list of (kind, text, start)"""
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        out.append((m.lastgroup if m.lastgroup != 'h' else 'raw', m.group(), i))
        i = m.end()
    return out


def code(toks):
    return [t for t in toks if t[0] not in ('ws', 'lc', 'bc')]


OPEN = {'(': ')', '[': ']', '{': '}'}


def match_close(toks, i):
    """index of the token closing the bracket at toks[i]"""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j][1] if toks[j][0] == 'op' else ''
        if t in OPEN:
            depth += 1
        elif t in (')', ']', '}'):
            depth -= 1
            if depth == 0:
                return j
    raise Lost('unbalanced brackets')


_cache = {}
_lock = threading.Lock()


def source(path):
    """`path!` is the crate after macro expansion by rustc; the path only says
    where the macro is called"""
    p = 'EXPANDED' if path.endswith('!') else f'{REPO}/{path}'
    with _lock:
        if p not in _cache:
            if p == 'EXPANDED':
                text, err = overlay.expand()
                if text is None:
                    raise Lost('rustc did not expand the crate: ' + err[-300:])
                text = unexpand(text)
            else:
                try:
                    text = open(p).read()
                except OSError:
                    raise Lost(f'{path} is gone')
            _cache[p] = (text, code(lex(text)))
    return _cache[p]


def unexpand(text):
    """undoes the expansion of format! and vec! (the macros of std), drops the
    crate's module paths and `use` inside functions, applies closures that are
    called where they are written"""
    out, last = [], 0
    text = re.sub(r'\bcrate::(?:[a-z_]\w*::)*(?=\w)', '', text)
    text = re.sub(r'^[ \t]+use [\w:]+;$', '', text, flags=re.M)
    for pat, name in ((r'::alloc::__export::must_use\(\{\s*::alloc::fmt::format\(format_args!\(', 'format'),
                      (r'::alloc::boxed::box_assume_init_into_vec_unsafe\(\s*::alloc::intrinsics::write_box_via_move\(\s*::alloc::boxed::Box::new_uninit\(\),\s*\[', 'vec'),
                      (r'<\[_\]>::into_vec\(\s*::alloc::boxed::box_new\(\s*\[', 'vec')):
        while True:
            m = re.search(pat, text)
            if not m:
                break
            o, depth, i = m.end() - 1, 0, m.end() - 1
            while True:
                k = TOK.match(text, i)
                t = k.group() if k.lastgroup == 'op' else ''
                depth += t in OPEN
                depth -= t in (')', ']', '}') and t != ''
                if depth == 0:
                    break
                i = k.end()
            tail = re.compile(r'\)\s*\}\)' if name == 'format' else r'\]\s*\)\s*\)').match(text, i)
            if name == 'format':
                tail = re.compile(r'\)\s*\)\s*\}\s*\)').match(text, i)
            if not tail:
                text = text[:m.start()] + text[m.start():m.end()].replace('::alloc', '::alloc_') + text[m.end():]
                continue
            text = text[:m.start()] + (f'format!({text[o + 1:i]})' if name == 'format' else f'vec![{text[o + 1:i]}]') + text[tail.end():]
    text = re.sub(r'\(\(?\|_\|\s*([\w:]+)\)\((\w+)\)', r'(\1', text)
    return text


def norm(s):
    return ''.join(t[1] for t in code(lex(s)))


def find_scope(path, header):
    """token range (lo, hi) of the body of the block whose header (text before
    the brace) is `header`, e.g. `impl EmvData`; None is the whole file"""
    text, toks = source(path)
    if header is None:
        return 0, len(toks)
    if ' >> ' in header:  # the body of a function of that block
        outer, name = [x.strip() for x in header.split(' >> ')]
        lo, hi = find_scope(path, outer)
        for i in range(lo, hi):
            if toks[i][1] == 'fn' and toks[i + 1][1] == name:
                while toks[i][1] != '{':
                    i += 1
                return i + 1, match_close(toks, i)
        raise Lost(f'{path}: no `{name}` in `{outer}`')
    want = norm(header)
    first = code(lex(header))[0][1]
    for i, t in enumerate(toks):
        if t[1] == first and t[0] == 'id':
            j = i
            acc = ''
            while j < len(toks) and len(acc) < len(want):
                acc += toks[j][1]
                j += 1
            if acc == want and j < len(toks) and (toks[j][1] in ('{', 'where')):
                while toks[j][1] != '{':
                    j += 1
                return j + 1, match_close(toks, j)
    raise Lost(f'{path}: no `{header}`')


class Fn:
    pass


def find_fn(path, scope, name):
    text, toks = source(path)
    lo, hi = find_scope(path, scope)
    i = lo
    found = []
    while i < hi:
        t = toks[i]
        if t[1] == 'mod' and t[0] == 'id' and toks[i + 1][1] == 'tests':
            break
        if t[0] == 'id' and t[1] == 'fn' and toks[i + 1][1] == name:
            found.append(i)
        if t[1] in OPEN and t[0] == 'op':
            if scope is None and t[1] == '{' and not _mod_before(toks, i):
                i = match_close(toks, i)
            elif scope is not None:
                i = match_close(toks, i)
        i += 1
    if len(found) != 1:
        raise Lost(f'{path}: {len(found)} definitions of `fn {name}`' + (f' in `{scope}`' if scope else ''))
    i = found[0]
    f = Fn()
    s = i
    while s > lo and toks[s - 1][1] in ('pub', 'const', 'unsafe', ')', '(', 'crate', 'super', 'async', 'extern'):
        s -= 1
    f.vis = 'pub ' if 'pub' in [t[1] for t in toks[s:i]] else ''
    f.name = name
    j = i + 2
    if toks[j][1] == '<':
        d = 0
        while True:
            if toks[j][1] == '<':
                d += 1
            elif toks[j][1] == '>':
                d -= 1
                if d == 0:
                    break
            elif toks[j][1] == '->':
                pass
            j += 1
        f.generics = text[toks[i + 2][2]:toks[j][2] + 1]
        j += 1
    else:
        f.generics = ''
    if toks[j][1] != '(':
        raise Lost('signature of ' + name)
    k = match_close(toks, j)
    f.params = text[toks[j][2] + 1:toks[k][2]]
    f.param_names = param_names(toks[j + 1:k])
    j = k + 1
    f.ret = ''
    f.where = ''
    b = j
    while toks[b][1] != '{':
        if toks[b][1] == ';':
            raise Lost('no body')
        b += 1
    if toks[j][1] == '->':
        w = j
        while w < b and toks[w][1] != 'where':
            w += 1
        f.ret = text[toks[j][2] + 2:toks[w][2]].strip()
        if w < b:
            f.where = text[toks[w][2]:toks[b][2]].strip()
    elif toks[j][1] == 'where':
        f.where = text[toks[j][2]:toks[b][2]].strip()
    e = match_close(toks, b)
    f.body = text[toks[b][2] + 1:toks[e][2]]
    f.line = text.count('\n', 0, toks[i][2]) + 1
    f.path = path
    return f


def _mod_before(toks, i):
    return i >= 2 and toks[i - 2][1] == 'mod'


def param_names(toks):
    out, depth, start = [], 0, True
    for k, t in enumerate(toks):
        if t[0] == 'op' and t[1] in '([{<':
            depth += 1
        elif t[0] == 'op' and t[1] in ')]}>':
            depth -= 1
        elif depth == 0 and t[1] == ',':
            start = True
            continue
        if start and t[0] == 'id' and t[1] not in ('mut', 'ref'):
            out.append(t[1])
            start = False
    return out


def binding_names(body):
    """names bound by let and for, in order of appearance"""
    toks = code(lex(body))
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t[0] == 'id' and t[1] in ('let', 'for'):
            stop = ('=', ';') if t[1] == 'let' else ('in',)
            j = i + 1
            depth = 0
            ty = False
            while j < len(toks) and not (depth == 0 and toks[j][1] in stop):
                x = toks[j]
                if x[1] in OPEN or x[1] == '<':
                    depth += 1
                elif x[1] in (')', ']', '}', '>'):
                    depth -= 1
                if x[1] == ':':
                    ty = True
                if x[1] == ',' and ty:
                    ty = False
                if not ty and x[0] == 'id' and x[1] not in ('mut', 'ref') and (x[1][0].islower() or x[1][0] == '_'):
                    out.append(x[1])
                j += 1
            i = j
        i += 1
    return out


def loops(body):
    """(kind, offset of the keyword, offset of its opening brace, offset of its closing brace)"""
    toks = code(lex(body))
    out = []
    for i, t in enumerate(toks):
        if t[0] != 'id' or t[1] not in ('while', 'for', 'loop'):
            continue
        if t[1] == 'for' and i + 1 < len(toks) and toks[i + 1][1] == '<':
            continue
        j = i + 1
        while True:
            if j >= len(toks):
                raise Lost('loop without a body')
            x = toks[j][1]
            if toks[j][0] == 'op':
                if x in ('(', '['):
                    j = match_close(toks, j)
                elif x == '{':
                    break
            j += 1
        kind = t[1]
        if kind == 'while' and toks[i + 1][1] == 'let':
            kind = 'whilelet'
        out.append((kind, t[2], toks[j][2], toks[match_close(toks, j)][2]))
    return out


def rename(text, mp):
    if not mp:
        return text
    out = []
    prev = ''
    for k, s, _ in lex(text):
        if k == 'id' and s in mp and prev != '.':
            s = mp[s]
        if k not in ('ws', 'lc', 'bc'):
            prev = s
        out.append(s)
    return ''.join(out)


def item(path, kind, name, scope=None):
    """text of a struct/enum/const/type, attributes and doc comments dropped"""
    text, toks = source(path)
    for i, t in enumerate(toks):
        if t[0] == 'id' and t[1] == kind and toks[i + 1][1] == name:
            s = i
            while s and toks[s - 1][1] in ('pub', ')', '(', 'crate', 'super'):
                s -= 1
            j = i + 2
            if kind == 'enum' and toks[j][1] == ':':
                # enum_repr macros write `enum Name: u8, Error, { .. } { variants }`
                while toks[j][1] != '{':
                    j += 1
                c = match_close(toks, j)
                if toks[c + 1][1] == '{':
                    j = c + 1
                toks = toks[:i + 2] + toks[j:]
                j = i + 2
            while toks[j][1] not in ('{', ';', '('):
                if toks[j][1] == '=' and kind in ('const', 'type', 'static'):
                    while toks[j][1] != ';':
                        j += 1
                    break
                j += 1
            if toks[j][1] in ('{', '('):
                e = match_close(toks, j)
                if toks[j][1] == '(':
                    e += 1
            else:
                e = j
            body = toks[s:e + 1]
            out, k = [], 0
            while k < len(body):
                if body[k][1] == '#' and body[k + 1][1] == '[':
                    k = match_close(body, k + 1) + 1
                    continue
                if body[k][1] == '=>':  # the text of an enum_repr variant
                    d = 0
                    while not (d == 0 and body[k][1] in (',', '}')):
                        d += body[k][1] in OPEN
                        d -= body[k][1] in (')', ']', '}')
                        k += 1
                    continue
                out.append(body[k][1])
                k += 1
            src = ' '.join(out)
            if kind == 'enum' and not any(x in out[out.index('{') + 1:] for x in ('{', '(')):
                # the derived equality of a list of names
                src = '#[derive(PartialEq, Eq, Structural)]\n' + src
            if kind in ('const', 'static'):
                src = re.sub(r"& (?=str\b|\[)", "& 'static ", src)
            return src
    raise Lost(f'{path}: no `{kind} {name}`')


ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}


def unquote(tok):
    """the text of a Rust string literal"""
    s = re.sub(r'\\\n\s*', '', tok[1:-1])
    def esc(m):
        t = m.group(1)
        return chr(int(t[2:-1], 16)) if t[0] == 'u' else chr(int(t[1:], 16)) if t[0] == 'x' else ESC[t]
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)', esc, s)


def quote(s):
    out = ''
    for c in s:
        out += {'\n': '\\n', '\t': '\\t', '\r': '\\r', '\\': '\\\\', '"': '\\"'}.get(c, c if 32 <= ord(c) < 127 else '\\u{%x}' % ord(c))
    return '"' + out + '"'


def split_top(toks, text, lo, hi):
    """texts of the comma-separated arguments between two offsets of tokens"""
    out, depth, start = [], 0, lo
    i = lo
    while i < hi:
        t = toks[i][1] if toks[i][0] == 'op' else ''
        if t in OPEN:
            i = match_close(toks, i)
        elif t == ',':
            out.append((start, i))
            start = i + 1
        i += 1
    if start < hi:
        out.append((start, hi))
    return [text[toks[a][2]:toks[b - 1][2] + len(toks[b - 1][1])] for a, b in out]


def fmt_pieces(fmt, args):
    """format string -> [text | (expression, spec)]"""
    named = {}
    pos = []
    for a in args:
        m = re.match(r'(\w+)\s*=(?!=)\s*(.*)$', a, re.S)
        if m:
            named[m.group(1)] = m.group(2)
        else:
            pos.append(a)
    out, i, nxt = [''], 0, 0
    while i < len(fmt):
        c = fmt[i]
        if c in '{}' and fmt[i:i + 2] == c * 2:
            out[-1] += c
            i += 2
        elif c == '{':
            e = fmt.index('}', i)
            name, _, spec = fmt[i + 1:e].partition(':')
            if name == '':
                x = pos[nxt]
                nxt += 1
            elif name.isdigit():
                x = pos[int(name)]
            else:
                x = named.get(name, name)
            out += [(x, spec), '']
            i = e + 1
        else:
            out[-1] += c
            i += 1
    return [p for p in out if p != '']


def put(sink, pieces, pre='vx'):
    r = ''
    for p in pieces:
        if isinstance(p, str):
            for q in re.findall(r'\n|[^\n]+', p):
                r += f'{pre}_put({sink}, {quote(q)}); '
            continue
        x, spec = p
        if spec == '':
            r += f'{pre}_show({sink}, &({x})); '
        elif re.fullmatch(r'0>2X|02X', spec):
            r += f'{pre}_hex2({sink}, &({x})); '
        elif spec == '#04X':
            r += f'{pre}_put({sink}, "0x"); {pre}_hex2({sink}, &({x})); '
        elif re.fullmatch(r'0>?\d+', spec):
            r += f'{pre}_pad({sink}, &({x}), {int(spec.replace(">", ""))}); '
        elif re.fullmatch(r'0>?\w+\$', spec):
            r += f'{pre}_pad({sink}, &({x}), {spec.lstrip("0>").rstrip("$")}); '
        else:
            raise Lost('format ' + spec)
    return r


def lower_prints(body, sinks):
    """print!, println!, write!, ... as calls on the output they write to;
    sinks: macro name -> expression, `write` -> None (its first argument)"""
    while True:
        toks = code(lex(body))
        for i in range(len(toks) - 2):
            m = toks[i][1]
            if toks[i][0] == 'id' and toks[i + 1][1] == '!' and toks[i + 2][1] == '(' and (m in sinks or m.replace('ln', '') in sinks):
                break
        else:
            return body
        c = match_close(toks, i + 2)
        args = split_top(toks, body, i + 3, c)
        base = m.replace('ln', '') if m not in sinks else m
        sink = sinks[base]
        res = ''
        if base == 'write':
            sink = args.pop(0)
            res = 'Ok(())'
        if args:
            if not args[0].startswith('"'):
                raise Lost('format string of ' + m)
            fmt = unquote(args[0])
        else:
            fmt = ''
        pieces = fmt_pieces(fmt, args[1:])
        if m.endswith('ln'):
            if pieces and isinstance(pieces[-1], str):
                pieces[-1] += '\n'
            else:
                pieces.append('\n')
        if base == 'format':
            t = '{ let mut vx_s = VxText::new(); ' + put('&mut vx_s', pieces, 'vxs') + 'vx_s.finish() }'
        else:
            t = '({ ' + put(sink, pieces, 'vxs' if base == 'write' else 'vx') + res + ' })'
        body = body[:toks[i][2]] + t + body[toks[c][2] + 1:]


def receiver(toks, dot):
    """index of the first token of the expression before the `.` at `dot`"""
    k = dot - 1
    while True:
        t = toks[k][1]
        if t in (')', ']', '}') and toks[k][0] == 'op':
            d = 0
            while True:
                d += toks[k][1] in (')', ']', '}')
                d -= toks[k][1] in OPEN
                if d == 0:
                    break
                k -= 1
            if t == '}':
                raise Lost('a method on a block')
            if toks[k - 1][0] != 'id' and toks[k - 1][1] not in ('>', ')', ']', '!'):
                return k
            k -= 1
            if toks[k][1] == '!':
                k -= 1
            continue
        if t == '>':
            while toks[k][1] != '<':
                k -= 1
            k -= 1
            if toks[k][1] == '::':
                k -= 1
            continue
        if t == '?':
            k -= 1
            continue
        if toks[k - 1][1] in ('.', '::'):
            k -= 2
            continue
        return k


def lower_results(body, methods):
    """`E.map(|p| B)` and `E.and_then(|p| B)` of a Result as the match they stand for"""
    n = 0
    while True:
        toks = code(lex(body))
        for i in range(1, len(toks) - 2):
            if toks[i][1] == '.' and toks[i + 1][1] in methods and toks[i + 2][1] == '(':
                break
        else:
            return body, n
        a, c = receiver(toks, i), match_close(toks, i + 2)
        recv = body[toks[a][2]:toks[i][2]].rstrip()
        arg = body[toks[i + 2][2] + 1:toks[c][2]].strip().rstrip(',')
        m = re.match(r'\|(.*?)\|\s*(.*)$', arg, re.S)
        if m and m.group(1).lstrip().startswith('('):
            m = re.match(r'\|\s*(\(.*?\))\s*\|\s*(.*)$', arg, re.S)
        pat, res = (m.group(1), m.group(2)) if m else ('vx_v', f'{arg}(vx_v)')
        if re.search(r'\breturn\b|\?', res):
            raise Lost('a closure that returns')
        if toks[i + 1][1] == 'map_err':
            m = f'(match {recv} {{ Ok(vx_v) => Ok(vx_v), Err({pat}) => Err({{ {res} }}) }})'
        else:
            ok = f'Ok({{ {res} }})' if toks[i + 1][1] == 'map' else f'{{ {res} }}'
            m = f'(match {recv} {{ Ok({pat}) => {ok}, Err(vx_e) => Err(vx_e) }})'
        body = body[:toks[a][2]] + m + body[toks[c][2] + 1:]
        n += 1


def lower_calls(body, calls):
    """`e.m(a)` as `f(e, a)`, for methods of the standard library that have their contract on a function"""
    n = 0
    while True:
        toks = code(lex(body))
        for i in range(1, len(toks) - 2):
            if toks[i][1] == '.' and toks[i + 1][1] in calls and toks[i + 2][1] == '(':
                break
        else:
            return body, n
        a, c = receiver(toks, i), match_close(toks, i + 2)
        recv = body[toks[a][2]:toks[i][2]].rstrip()
        arg = body[toks[i + 2][2] + 1:toks[c][2]].strip()
        body = body[:toks[a][2]] + f'{calls[toks[i + 1][1]]}({recv}{", " if arg else ""}{arg})' + body[toks[c][2] + 1:]
        n += 1


def lower_any(body, ty, spec):
    """`s.iter().any(|p| E)` as a call of the contracted `any`, the closure under the contract `spec`"""
    n = 0
    while True:
        toks = code(lex(body))
        for i in range(6, len(toks) - 2):
            if [t[1] for t in toks[i - 4:i + 3]] == ['.', 'iter', '(', ')', '.', 'any', '(']:
                i -= 4
                break
        else:
            return body, n
        a, c = receiver(toks, i), match_close(toks, i + 6)
        recv = body[toks[a][2]:toks[i][2]].rstrip()
        arg = body[toks[i + 6][2] + 1:toks[c][2]].strip().rstrip(',')
        m = re.match(r'\|\s*(&?)(\w+)\s*\|\s*(.*)$', arg, re.S)
        if m:
            res = m.group(3) if not m.group(1) else f'let {m.group(2)} = *{m.group(2)}; {m.group(3)}'
            arg = f'|{m.group(2)}: &{ty}| -> (b: bool) ensures b == {spec}(*{m.group(2)}) {{ {res} }}'
        elif re.fullmatch(r'[\w:]+', arg):
            arg = f'|vx_x: &{ty}| -> (b: bool) ensures b == {spec}(*vx_x) {{ {arg}(vx_x) }}'
        else:
            raise Lost('the closure of any')
        body = body[:toks[a][2]] + f'vx_any({recv}.as_slice(), {arg})' + body[toks[c][2] + 1:]
        n += 1


def open_closures(body):
    """closures that carry no contract: nothing is known about their results"""
    toks = code(lex(body))
    out, end = [], 0
    for i, t in enumerate(toks):
        if t[1] in ('proof', 'Ghost') and toks[i + 1][1] in OPEN:
            end = match_close(toks, i + 1)
        if i < end or t[0] != 'op' or t[1] not in ('|', '||') or not i or toks[i - 1][1] not in ('(', ',', '=', 'move', 'return', '{', ';', '&&'):
            continue
        j = i
        if t[1] == '|':
            j = i + 1
            while j < len(toks) and toks[j][1] != '|':
                j = match_close(toks, j) + 1 if toks[j][1] in OPEN and toks[j][0] == 'op' else j + 1
        if j + 1 < len(toks) and toks[j + 1][1] not in ('->', 'requires', 'ensures'):
            out.append(body[t[2]:toks[j + 1][2] + 20].replace('\n', ' '))
    return out


def lower_strmatch(body):
    """`match e { "a" | "b" => .., _ => .. }` as comparisons with the same texts in the same order"""
    n = 0
    while True:
        toks = code(lex(body))
        for i, t in enumerate(toks):
            if t[0] != 'id' or t[1] != 'match':
                continue
            o = i + 1
            while toks[o][1] != '{':
                o = match_close(toks, o) + 1 if toks[o][1] in OPEN else o + 1
            if toks[o + 1][0] == 'str':
                break
        else:
            return body, n
        c = match_close(toks, o)
        ed, k = [], o + 1
        while k < c:
            a = k
            while toks[k][1] != '=>':
                k += 1
            pats = toks[a:k]
            if [x[1] for x in pats] == ['_']:
                g = '()'
            elif all(x[0] == 'str' or x[1] == '|' for x in pats):
                g = '() if ' + ' || '.join(f'vx_eq(vx_m, {x[1]})' for x in pats if x[0] == 'str')
            else:
                raise Lost('a pattern of a match on texts')
            ed.append((toks[a][2], toks[k][2], g + ' '))
            k += 1
            if toks[k][1] == '{':
                k = match_close(toks, k) + 1
                k += k < c and toks[k][1] == ','
                continue
            while k < c and toks[k][1] != ',':
                k = match_close(toks, k) + 1 if toks[k][1] in OPEN else k + 1
            k += 1
        e = body[toks[i + 1][2]:toks[o][2]]
        for a, b, g in reversed(ed):
            body = body[:a] + g + body[b:]
        toks2 = code(lex(body))
        c2 = match_close(toks2, o)
        end = toks2[c2][2] + 1
        body = body[:toks[i][2]] + f'{{ let vx_m = {e}; match () ' + body[toks[o][2]:end] + ' }' + body[end:]
        n += 1


# ---------------------------------------------------------------- templates
def parse_template(text):
    """yields ('text', str) and ('fn'|'item', args, sections)"""
    out, buf = [], []
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        ln = lines[i]
        m = re.match(r'\s*//@@ (\w+) (.*)$', ln)
        if not m:
            buf.append(ln)
            i += 1
            continue
        out.append(('text', '\n'.join(buf) + '\n'))
        buf = []
        kind, args = m.group(1), m.group(2).strip()
        i += 1
        secs = []
        if kind == 'fn':
            cur = None
            while not lines[i].strip().startswith('//@@ end'):
                m = re.match(r'\s*//@ (.*)$', lines[i])
                if m:
                    cur = [m.group(1).strip(), []]
                    secs.append(cur)
                elif cur:
                    cur[1].append(lines[i])
                elif lines[i].strip():
                    raise ValueError('template: ' + lines[i])
                i += 1
            i += 1
        out.append((kind, args, [(a, '\n'.join(b)) for a, b in secs]))
    out.append(('text', '\n'.join(buf)))
    return out


class Unit:
    """rendered Verus source; self.fns: list of dict(name, lo, hi (lines), path)"""


def split_args(args):
    """PATH [scope `...`] NAME"""
    m = re.match(r'(\S+)\s+(?:`([^`]*)`\s+)?(\w+)(?:\s+as\s+(\w+))?$', args)
    if not m:
        raise ValueError('template: ' + args)
    return m.groups()


def add_steps(name, body, word, lines):
    """one proof line after each top-level statement that mentions `word`, but
    for the value at the end"""
    toks = code(lex(body))
    ends, start, i = [], 0, 0
    while i < len(toks):
        t = toks[i]
        if t[0] == 'op' and t[1] in OPEN:
            i = match_close(toks, i)
            # a block in statement position ends a statement
            if not (toks[i][1] == '}' and toks[start][1] in ('if', 'for', 'while', 'match', 'loop', '{') and (i + 1 == len(toks) or toks[i + 1][1] not in ('else', '.', '?'))):
                i += 1
                continue
        elif t[1] != ';':
            i += 1
            continue
        if any(x[1] == word for x in toks[start:i]):
            ends.append(toks[i][2] + 1)
        start = i + 1
        i += 1
    if len(ends) != len(lines):
        raise Lost(f'{name}: {len(ends)} statements on `{word}`, contracts written for {len(lines)}')
    for e, l in sorted(zip(ends, lines), reverse=True):
        body = body[:e] + ' ' + l + ' ' + body[e:]
    return body


def render_stub(args, secs):
    """the contract alone, for callers: the body no longer fits its annotations"""
    path, scope, name, alias = split_args(args)
    keep = [(h, re.sub(r'(?m)^\s*decreases\b.*$', '', t)) for h, t in secs if h.split()[0] in ('params', 'ret', 'spec', 'key', 'param', 'prints') or h.startswith(('lower sig', 'lower? sig'))]
    t, f, lw = render_fn(args, keep, False, 'unimplemented!()')
    return '#[verifier::external_body]\n' + t, f, lw


def template(unit):
    import versgen
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'verus', unit + '.rs')
    return parse_template(_expand(versgen.UNITS[unit]() if unit in versgen.UNITS else open(p).read()))


def render_contract(unit, key, name):
    """the contract of a function of another unit, which discharges it"""
    for part in template(unit):
        if part[0] == 'fn' and fn_key(part[1], part[2]) == key:
            path, scope, real, alias = split_args(part[1])
            t, f, _ = render_stub(f'{path} ' + (f'`{scope}` ' if scope else '') + f'{real} as {name or alias or real}', [(h, x) for h, x in part[2] if not h.startswith('key ')])
            return t.replace('#[verifier::external_body]', f'#[verifier::external_body] // {key}, discharged in {unit}')
    raise ValueError(f'no contract of {key} in {unit}')


def definitions(text):
    """spec fn name -> its definitions"""
    toks = code(lex(text))
    out = {}
    for i, t in enumerate(toks):
        if t[1] == 'fn' and toks[i - 1][1] == 'spec' and toks[i - 1][0] == 'id':
            j = i
            while j < len(toks) and toks[j][1] not in ('{', ';'):
                j = match_close(toks, j) + 1 if toks[j][1] in ('(', '[') else j + 1
            e = match_close(toks, j) if toks[j][1] == '{' else j
            out.setdefault(toks[i + 1][1], []).append(toks[i + 1:e + 1])
    return out


def same_meaning(contract, here, there):
    """names of the spec functions that the contract depends on and that are not
    defined alike in both units"""
    a, b = definitions(here), definitions(there)
    todo, seen, bad = [t[1] for t in code(lex(contract))], set(), []
    while todo:
        n = todo.pop()
        if n in seen or n not in a and n not in b:
            continue
        seen.add(n)
        x, y = ([' '.join(t[1] for t in d) for d in m.get(n, [])] for m in (a, b))
        if len(x) == len(y) == 1 and x != y or not x or not y:
            bad.append(n)
        for d in a.get(n, []) + b.get(n, []):
            todo += [t[1] for t in d if t[0] == 'id']
    return bad


def fn_key(args, secs):
    path, scope, name, alias = split_args(args)
    return next((h.split(None, 1)[1] for h, _ in secs if h.startswith('key ')), alias or name)


# lowerings done on the tokens, listed but not applied as patterns
OWN = ('print!', 'for &x', 'for (i, x)', 'if let Some(&x)', 'result.map', 'match text', 'e.method')


def clauses(spec, word):
    """the clauses of `ensures`/`invariant` in a specification"""
    toks = code(lex(spec))
    for i, t in enumerate(toks):
        if t == ('id', word, t[2]):
            hi = next((j for j in range(i + 1, len(toks)) if toks[j][0] == 'id' and toks[j][1] in ('requires', 'ensures', 'decreases', 'invariant', 'invariant_except_break')), len(toks))
            return [c.strip() for c in split_top(toks, spec, i + 1, hi) if c.strip()]
    return []


def split_hints(secs, body, words):
    """Proof text for a second attempt at a failed function: the literals are
    spelled out and what was written is compared character by character, so that
    the same text written in other pieces is accepted. Adds no assumption."""
    lits = list(dict.fromkeys(w for w in words if len(w) < 200))[:120]
    reveal = 'proof { ' + ' '.join(f'reveal_strlit({w});' for w in lits) + ' }'
    out, spec, seen = [], '', set()
    for h, t in secs:
        if h == 'spec':
            spec = t
    tail = ''
    for c in clauses(spec, 'ensures'):
        m = re.match(r'final\((\w+)\)@ == (.*)$', c, re.S)
        if m:
            tail += f'assert({m[1]}@ =~= {m[2]}); '
        m = re.match(r'r@ == (.*)$', c, re.S)
        if m:
            tail += f'assert(vx_tail@ =~= {m[1]}); '
    for h, t in secs:
        w = h.split()
        if w[0] == 'loop' and len(w) == 2:
            end = ''.join(f'assert({c.replace(" == ", " =~= ", 1)}); ' for c in clauses(t, 'invariant') if re.match(r'\w+@ == ', c))
            out.append((h + ' begin', reveal))
            if end and 'it.index()' not in end:
                out.append((h + ' end', 'proof { ' + end + '}'))
    out.append(('begin', reveal))
    if tail:
        out.append(('tail', 'proof { ' + tail + '}'))
    res = []
    for h, t in secs:
        for k, (g, u) in enumerate(out):
            if g == h:
                t = u + '\n' + t if g.endswith('begin') else t + '\n' + u
                seen.add(k)
        res.append((h, t))
    return res + [x for k, x in enumerate(out) if k not in seen]


def render_fn(args, secs, vac, body=None):
    path, scope, name, alias = split_args(args)
    f = find_fn(path, scope, name)
    body = f.body if body is None else body
    ns = iter(range(9))
    params, ret, where = re.sub(r'(^|,)(\s*)_\s*:', lambda m: f'{m.group(1)}{m.group(2)}_vx_unused{next(ns)}:', f.params), f.ret, f.where
    d = {'loops': None, 'locals': None}
    lower, ins = [], []
    retname, attrs, spec = 'r', '', ''
    begin = tail = ''
    steps = None
    ploop, sinks = {}, {}
    for head, txt in secs:
        w = head.split(None, 1)
        if w[0] == 'loops':
            d['loops'] = w[1].split() if len(w) > 1 else []
        elif w[0] == 'locals':
            d['locals'] = w[1].split() if len(w) > 1 else []
        elif w[0] == 'params':
            d['params'] = w[1].split() if len(w) > 1 else []
        elif w[0] == 'ret':
            retname = w[1]
        elif w[0] == 'attr':
            attrs += w[1] + '\n'
        elif w[0] == 'spec':
            spec = txt
        elif w[0] == 'begin':
            begin = txt
        elif w[0] == 'tail':
            tail = txt
        elif w[0] == 'prints':
            for a in w[1].split():
                k, _, v = a.partition('=')
                sinks[k] = v.replace('~', ' ')
        elif w[0] == 'results':
            d['results'] = w[1].split()
        elif w[0] == 'strmatch':
            d['strmatch'] = True
        elif w[0] == 'any':
            d['any'] = w[1].split()
        elif w[0] == 'calls':
            d['calls'] = dict(x.split('=') for x in w[1].split())
        elif w[0] == 'steps':
            steps = (w[1].strip('/'), [l for l in txt.split('\n') if l.strip()])
        elif w[0] == 'key':
            f.key = w[1]
        elif w[0] == 'param':
            params = w[1] + (', ' + params if params.strip() else '')
        elif w[0] == 'loop':
            a = w[1].split()
            ploop.setdefault(int(a[0]), {})[a[1] if len(a) > 1 else 'inv'] = txt
        elif w[0] == 'iter':
            a = w[1].split()
            ploop.setdefault(int(a[0]), {})['iter'] = a[1]
        elif w[0] in ('lower', 'lower?'):
            m = re.match(r'(sig|body)\s+/(.*?)/\s*=>\s*(.*)$', w[1] + ('\n' + txt if txt.strip() else ''), re.S)
            if not m:
                raise ValueError('lower: ' + head)
            lower.append(m.groups() + (w[0] == 'lower',))
        else:
            raise ValueError('section ' + head)
    # renamed locals keep their contracts
    mp = {}
    if d.get('params') is not None:
        now = [p for p in f.param_names]
        if len(now) == len(d['params']):
            mp.update({a: b for a, b in zip(d['params'], now) if a != b})
        else:
            raise Lost(f'{name}: parameters changed')
    now = binding_names(body)
    if d['locals'] is not None and now != d['locals']:
        if len(now) == len(d['locals']):
            mp.update({a: b for a, b in zip(d['locals'], now) if a != b})
    if d.get('results'):
        body, hits = lower_results(body, d['results'])
        if hits:
            lower.append(('body', 'result.map(|p| E), result.and_then(|p| E)', 'match result { Ok(p) => .., Err(e) => Err(e) }', False))
    if d.get('calls'):
        body, hits = lower_calls(body, d['calls'])
        if hits:
            lower.append(('body', 'e.method(a) for ' + ', '.join(d['calls']), 'contracted function(e, a)', False))
    if d.get('any'):
        body, hits = lower_any(body, *d['any'])
        if hits:
            lower.append(('body', 'e.method(a) for any', 'contracted any, its closure under a contract', False))
    if d.get('strmatch'):
        body, hits = lower_strmatch(body)
        if hits:
            lower.append(('body', 'match text { "a" => .. }', 'match () { () if vx_eq(text, "a") => .. }', False))
    # `for &x in` -> `for vx_x in { let x = *vx_x;`
    for kind, kw, ob, cb in reversed(loops(body)):
        m = re.match(r'for\s+&(\w+)\s+in\b', body[kw:ob])
        if m:
            x = m.group(1)
            body = body[:kw] + f'for vx_{x} in' + body[kw + m.end():ob + 1] + f' let {x} = *vx_{x};' + body[ob + 1:]
            lower.append(('body', 'for &x in', 'for vx_x in { let x = *vx_x;', False))
        m = re.match(r'for\s+\(\s*(\w+)\s*,\s*(&?)(\w+)\s*\)\s+in\s+(\w+(?:\.\w+)*)\.iter\(\)\.enumerate\(\)\s*$', body[kw:ob])
        if m:
            i_, amp, x, e = m.groups()
            body = body[:kw] + f'for {i_} in 0..{e}.len() {{ let {x} = {"" if amp else "&"}{e}[{i_}];' + body[ob + 1:]
            lower.append(('body', 'for (i, x) in e.iter().enumerate()', 'for i in 0..e.len() { let x = &e[i];', False))
    body, hits = re.subn(r'\bif let Some\(&(\w+)\) = ([^{};]*)\{', r'if let Some(\1) = \2{ let \1 = *\1;', body)
    if hits:
        lower.append(('body', 'if let Some(&x)', 'if let Some(x) .. { let x = *x;', False))
    ls = loops(body)
    kinds = [l[0] for l in ls]
    if d['loops'] is not None and kinds != d['loops']:
        raise Lost(f'{name}: loops are now {kinds}, contracts written for {d["loops"]}')
    ed = []
    for k, (kind, kw, ob, cb) in enumerate(ls):
        p = ploop.get(k, {})
        if kind == 'for' and p.get('iter'):
            toks = code(lex(body[kw:ob]))
            for t in toks:
                if t[1] == 'in':
                    ed.append((kw + t[2] + 2, f' {p["iter"]}:'))
                    break
        if 'inv' in p:
            ed.append((ob, '\n' + rename(p['inv'], mp) + '\n'))
        if 'begin' in p:
            m = re.match(r' let \w+ = (\*vx_\w+|&?[\w.]+\[\w+\]);', body[ob + 1:])  # the binding lowered above
            ed.append((ob + 1 + (m.end() if m else 0), '\n' + rename(p['begin'], mp) + '\n'))
        e = rename(p.get('end', ''), mp)
        if vac and 'noexit' not in p:
            e += '\nassert(false); // vacuity\n'
        if e:
            ed.append((cb, '\n' + e + '\n'))
    bare = body  # without the proof text
    for where_, pat, rep, must in lower:
        if where_ == 'body' and not pat.startswith(OWN):
            try:
                bare = re.sub(rename(pat, mp), lambda m: m.expand(rename(rep, mp).rstrip()), bare, flags=re.S)
            except (re.error, IndexError):
                pass
    f.open = open_closures(bare)
    for off, t in sorted(ed, key=lambda x: -x[0]):
        body = body[:off] + t + body[off:]
    if sinks:
        body = lower_prints(body, sinks)
        if sinks.get('print'):
            body = re.sub(r'(?<!fn )\b(print_indentation|print_bytes|print_bytes_pretty|print_bytes_small)\(', rf'\1({sinks["print"]}, ', body)
        lower.append(('body', 'print!/println!/write!/format!(...)', 'the same pieces written one by one to the output they go to', False))
    for where_, pat, rep, must in lower:
        if pat.startswith(OWN):
            continue
        pat, rep = rename(pat, mp), rename(rep, mp)
        if where_ == 'body':
            body, hits = re.subn(pat, lambda m: m.expand(rep.rstrip()), body, flags=re.S)
        else:
            params, a = re.subn(pat, lambda m: m.expand(rep.rstrip()), params)
            ret, b = re.subn(pat, lambda m: m.expand(rep.rstrip()), ret)
            where, c = re.subn(pat, lambda m: m.expand(rep.rstrip()), where)
            hits = a + b + c
        if must and not hits:
            raise Lost(f'{name}: nothing matches the lowering /{pat}/')
    if steps:
        body = add_steps(name, body, *steps)
    body = re.sub(r'#!?\[(?:allow|cfg|warn|inline)[^\]]*\]', '', body)
    begin = rename(begin, mp)
    if tail:
        # the proof block needs a value to hand on when the body ends in an expression
        tail = rename(tail, mp)
        body = f'let vx_tail: {ret} = {{ {body} }};\n{tail}\nvx_tail\n' if ret else f'{body}\n{tail}\n'
    if vac:
        ty = f': {ret}' if ret else ''
        if 'impl ' in ty:
            ty = ''
        body = f'\n{begin}\nlet vx_vac{ty} = {{ {body} }};\nassert(false); // vacuity\nvx_vac\n'
    else:
        body = f'\n{begin}\n{body}'
    sig = f'{attrs}{f.vis}fn {alias or name}{f.generics}({params})'
    if ret:
        sig += f' -> ({retname}: {ret})'
    if where:
        sig += ' ' + where
    return f'{sig}\n{rename(spec, mp)}\n{{{body}}}\n', f, [(a, b, c.strip()) for a, b, c, _ in lower]


def render_const(args, vac):
    """PATH `scope` NAME fn KEY [v, ..]: an associated constant `&[e, ..]` as a
    function, with the bytes it must have"""
    m = re.match(r'(\S+)\s+`([^`]*)`\s+(\w+)\s+(\w+)\s+(\S+)\s+\[(.*)\]$', args)
    path, scope, name, fn, key, want = m.groups()
    text, toks = source(path)
    lo, hi = find_scope(path, scope)
    for i in range(lo, hi):
        if toks[i][1] == 'const' and toks[i + 1][1] == name:
            break
    else:
        raise Lost(f'{path}: no const {name} in `{scope}`')
    j = i
    while toks[j][1] != '=':
        j += 1
    if toks[j + 1][1] != '&' or toks[j + 2][1] != '[':
        raise Lost(f'{path}: const {name} in `{scope}` is not a list of bytes')
    c = match_close(toks, j + 2)
    es = split_top(toks, text, j + 3, c)
    ws = [w.strip() for w in want.split(',')]
    if len(es) != len(ws):
        raise Lost(f'{path}: const {name} in `{scope}` has {len(es)} bytes')
    typed = lambda e: re.sub(r'\b(0[bx][0-9a-fA-F_]+|\d+)\b', lambda n: n.group(1) + 'u8', e)
    proof = ' '.join(f'assert(({typed(e)}) == {w}u8) by (bit_vector);' for e, w in zip(es, ws))
    v = ' assert(false); // vacuity\n' if vac else ''
    t = (f'fn {fn}() -> (r: &\'static [u8])\nensures r@ == seq![{", ".join(w + "u8" for w in ws)}]\n'
         f'{{ proof {{ {proof}{v} }}\n  &[{", ".join(es)}]\n}}\n')
    return t, dict(name=key, real=name, path=path.rstrip('!'), line=0, const=True)


def _expand(text, seen=()):
    def inc(m):
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'verus', m.group(1))
        return _expand(open(p).read())
    def use(m):
        import versgen
        return _expand(versgen.GEN[m.group(1)]())
    text = re.sub(r'^//@@use (\S+)$', use, text, flags=re.M)
    return re.sub(r'^//@@include (\S+)$', inc, text, flags=re.M)


def literals_of(text, lo, hi):
    """the string literals of lines lo..hi and of the spec functions they use"""
    defs = definitions(text)
    part = '\n'.join(text.split('\n')[lo - 1:hi])
    toks = code(lex(part))
    out, todo, seen = [], toks, set()
    while todo:
        nxt = []
        for t in todo:
            if t[0] == 'str' or t[1].startswith('"'):
                out.append(t[1])
            elif t[0] == 'id' and t[1] in defs and t[1] not in seen:
                seen.add(t[1])
                nxt += [x for d in defs[t[1]] for x in d]
        todo = nxt
    return out


def render(template_path, vac=False, stubs=None, hints=None):
    """stubs: {key: reason} functions whose bodies are dropped (callers see the
    contract), because they no longer fit their annotations; Lost ones are added"""
    stubs = {} if stubs is None else stubs
    out, fns, line = '', [], 1
    lowers, items = [], []
    unit = os.path.basename(template_path)[:-3]
    uses = []
    for part in template(unit):
        if part[0] == 'text':
            t = part[1]
        elif part[0] == 'item':
            a = part[1].split(None, 3)
            t = item(a[0], a[1], a[2]) + '\n'
            items.append(f'{a[1]} {a[2]} ({a[0]})')
            if len(a) > 3:
                m = re.match(r'/(.*?)/\s*=>\s*(.*)$', a[3])
                t = re.sub(m.group(1), lambda x: x.expand(m.group(2)), t)
                lowers.append(dict(fn=a[2], where='item', pattern=m.group(1), replacement=m.group(2)))
        elif part[0] == 'contract':
            m = re.match(r'(\S+) (\S+)(?: as (\w+))?$', part[1])
            t = render_contract(*m.groups())
            uses.append((m.group(1), m.group(2), t))
        elif part[0] == 'gen':
            import versgen
            t = versgen.GEN[part[1]]() + '\n'
        elif part[0] == 'constfn':
            t, f = render_const(part[1], vac)
            n = out.count('\n') + 1
            fns.append(dict(f, lo=n, hi=n + t.count('\n')))
        elif part[0] == 'fn':
            key = fn_key(part[1], part[2])
            if key not in stubs:
                try:
                    secs = split_hints(part[2], None, hints[key]) if key in (hints or {}) else part[2]
                    t, f, lw = render_fn(part[1], secs, vac)
                except Lost as e:
                    stubs[key] = f'contract anchor lost: {e}'
            if key in stubs:
                t, f, lw = render_stub(part[1], part[2])
            n = out.count('\n') + 1
            fns.append(dict(name=getattr(f, 'key', None) or split_args(part[1])[3] or f.name, real=f.name, open=getattr(f, 'open', []), path=f.path.rstrip('!'), line=0 if f.path.endswith('!') else f.line, lo=n, hi=n + t.count('\n')))
            lowers += [dict(fn=f.name, where=x, pattern=y, replacement=z) for x, y, z in lw]
        else:
            raise ValueError('directive ' + part[0])
        out += t
    u = Unit()
    u.text, u.fns, u.lowers, u.items = out, fns, lowers, items
    u.uses = [(a, b) for a, b, _ in uses]
    for a, b, t in uses if not vac else []:
        bad = same_meaning(t, out, render(os.path.join(os.path.dirname(template_path), a + '.rs'), True).text)
        if bad:
            raise ValueError(f'the contract of {b} means something else in {a}: {", ".join(bad)}')
    return u
