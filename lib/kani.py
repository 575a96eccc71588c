"""Kani engine: function-level contract harnesses compiled into a copy of the
real crate. What the copy drops: the argument and configuration front end
(src/cli.rs, src/config) and the body of `main`, whose third-party dependencies
do not compile under Kani's toolchain. Every other item is compiled as it is in
/repo's working tree."""
import os, re, resource, shutil, subprocess, time, signal
import overlay
import extract as X

VERIF = overlay.VERIF

# checks on Kani's own limits, not on the code
LIMIT = re.compile(r'unwinding assertion|not currently supported|unsupported|recursion unwinding|is not supported|'
                   r'call to foreign|Kani does not support|Inline assembly|has been disabled', re.I)


def strip_main(text):
    toks = X.code(X.lex(text))
    cuts = []
    i = 0
    while i < len(toks):
        t = toks[i]
        if t[0] == 'id' and t[1] == 'mod' and toks[i + 1][1] in ('cli', 'config', 'testing_macros', 'vdrv') and toks[i + 2][1] == ';':
            cuts.append((t[2], toks[i + 2][2] + 1, ''))
        if t[0] == 'id' and t[1] == 'use':
            j = i
            while toks[j][1] != ';':
                j += 1
            seg = toks[i:j + 1]
            # drop cli:: and config:: leaves of `use crate::{..}` and plain ones
            if any(x[1] in ('cli', 'config') for x in seg):
                if seg[1][1] == 'crate' and seg[3][1] == '{':
                    k = 4
                    while k < len(seg):
                        s = k
                        while seg[k][1] not in (',', '}'):
                            if seg[k][1] == '{':
                                k = X.match_close(seg, k)
                            k += 1
                        if seg[s][1] in ('cli', 'config'):
                            cuts.append((seg[s][2], seg[k][2] + (seg[k][1] == ','), ''))
                        if seg[k][1] == '}':
                            break
                        k += 1
                else:
                    cuts.append((seg[0][2], seg[-1][2] + 1, ''))
            i = j
        if t[0] == 'id' and t[1] == 'fn' and toks[i + 1][1] == 'main':
            j = i
            while toks[j][1] != '{':
                j += 1
            e = X.match_close(toks, j)
            cuts.append((toks[j][2] + 1, toks[e][2], ''))
            i = e
        i += 1
    for a, b, r in sorted(cuts, reverse=True):
        text = text[:a] + r + text[b:]
    return text


# accessors to private fields, added to the overlay only
APPEND = {
    'src/non_emv/service_code.rs': '''
#[cfg(kani)]
impl ServiceCode {
	pub fn vk_parts(self) -> (u16, Interchange, Technology, AuthorisationProcessing, AllowedServices, PinRequirements) {
		(self.number, self.interchange, self.technology, self.authorisation_processing, self.allowed_services, self.pin_requirements)
	}
}
''',
}


def prepare(work, harness_src, append=True):
    d = f'{work}/kani'
    shutil.rmtree(d, ignore_errors=True)
    overlay.copy_src(d)
    for f, t in APPEND.items():
        if append and os.path.exists(f'{d}/{f}'):
            open(f'{d}/{f}', 'a').write(t)
    p = f'{d}/src/main.rs'
    m = strip_main(open(p).read())
    m = '#![allow(warnings)]\n' + re.sub(r'#!\[(warn|allow|deny|forbid)\(.*?\)\]', '', m, flags=re.S)
    # which type a displayable value has, visible to the harnesses
    m = re.sub(r'(pub trait DisplayBreakdown[^{]*\{)', r"\1\n\tfn vk_type(&self) -> std::any::TypeId where Self: 'static {\n\t\tstd::any::TypeId::of::<Self>()\n\t}\n", m)
    m += '\n#[cfg(kani)]\nmod vk;\n'
    open(p, 'w').write(m)
    open(f'{d}/src/vk.rs', 'w').write(open(f'{VERIF}/spec/kani/prelude.rs').read() + harness_src)
    open(f'{d}/Cargo.toml', 'w').write('[package]\nname = "pemv"\nversion = "0.0.0"\nedition = "2021"\nauthors = ["x"]\ndescription = "d"\n'
                                       '[dependencies]\nderivative = "2.2"\ntermcolor = "1.1"\n[workspace]\n')
    return d


HARNESS = re.compile(r'((?:^#\[[^\n]*\]\n)*?^#\[kani::proof\]\n(?:^#\[[^\n]*\]\n)*)^fn (\w+)\(\) \{\n(.*?)^\}\n', re.M | re.S)


def split_harnesses(src):
    """(text outside harnesses, {name: text}); every harness gets a reachability
    cover at its end, so one that nothing reaches is reported as vacuous"""
    hs = {}

    def keep(m):
        hs[m.group(2)] = f'{m.group(1)}fn {m.group(2)}() {{\n{m.group(3)}\tkani::cover!(true, "end reached");\n}}\n'
        return ''
    rest = HARNESS.sub(keep, src)
    if '#[kani::proof]' in rest:
        raise ValueError('unparsed harness in ' + rest[rest.index('#[kani::proof]'):][:200])
    return rest, hs


def bounded_note(text):
    m = re.search(r'// BOUNDED: (.*)', text)
    return m.group(1) if m else None


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))


def invoke(d, timeout, jobs, extra=(), grace=120):
    env = dict(overlay.ENV)
    env.pop('RUSTUP_TOOLCHAIN', None)
    env.pop('RUSTFLAGS', None)
    cmd = ['cargo', 'kani', '-Z', 'stubbing', '-Z', 'unstable-options', '--output-format', 'terse', '--harness-timeout', f'{timeout}s', *extra]
    if jobs > 1:
        cmd += ['-j', str(jobs)]
    p = subprocess.Popen(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, preexec_fn=limit)
    try:
        out, _ = p.communicate(timeout=timeout + grace)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
    return ' '.join(cmd), out


def run(work, src, timeout=300, jobs=4):
    """status per harness: 'proved', 'failed', 'undecided' (with a reason)"""
    t0 = time.time()
    rest, hs = split_harnesses(src)
    res = dict(harnesses={n: dict(status='undecided', reason='not run', bounded=bounded_note(t), checks=0, time=0, failures=[]) for n, t in hs.items()},
               error='', wall=0, output='', cmd='')
    live = dict(hs)
    try:
        d = prepare(work, '')
    except (X.Lost, OSError, IndexError) as e:
        res['error'] = f'overlay: {e}'
        for h in res['harnesses'].values():
            h['reason'] = res['error']
        return res
    head = open(f'{VERIF}/spec/kani/prelude.rs').read() + rest + '\n'
    appended = True
    for _ in range(6):
        text, where = head, []
        for n, t in live.items():
            lo = text.count('\n') + 1
            text += t
            where.append((n, lo, text.count('\n') + 1))
        open(f'{d}/src/vk.rs', 'w').write(text)
        res['cmd'], out = invoke(d, timeout, jobs)
        res['output'] = out
        if re.search(r'^error', out, re.M) and any(f'--> {f}' in out for f in APPEND) and appended:
            appended = False
            prepare(work, '', False)
            continue
        bad = {n for l in re.findall(r'^error[^\n]*\n\s*--> src/vk\.rs:(\d+)', out, re.M) for n, a, b in where if a <= int(l) < b}
        if not bad:
            break
        for n in bad:
            del live[n]
            res['harnesses'][n]['reason'] = 'the harness does not fit the current source: ' + '; '.join(re.findall(r'^error[^\n]*', out, re.M)[:3])
    parse(out, res['harnesses'])
    if not any(h['status'] != 'undecided' for h in res['harnesses'].values()):
        res['error'] = '; '.join(re.findall(r'^error[^\n]*', out, re.M)[:4]) or out[-400:]
        for h in res['harnesses'].values():
            if h['reason'] == 'not run':
                h['reason'] = 'Kani did not run: ' + res['error']
    res['wall'] = round(time.time() - t0, 1)
    res['dir'] = d
    return res


def parse(out, hs):
    cur, owner = {}, None
    block = []

    def close():
        if owner is None or not block:
            return
        b = '\n'.join(block)
        h = hs.get(owner)
        v = re.search(r'VERIFICATION:- (\w+)', b)
        if h is None or not v:
            return
        m = re.search(r'\*\* (\d+) of (\d+) failed(?: \((\d+) unreachable)?', b)
        h['checks'] = int(m.group(2)) - int(m.group(3) or 0) if m else 0
        t = re.search(r'Verification Time: ([\d.]+)', b)
        h['time'] = float(t.group(1)) if t else 0
        fails = re.findall(r'^Failed Checks: (.*(?:\n (?!File)[^\n]*)*)(?:\n File: (.*))?', b, re.M)
        h['failures'] = [f'{a} ({c})' if c else a for a, c in fails]
        cov = re.search(r'\*\* (\d+) of (\d+) cover properties satisfied', b)
        if v.group(1) == 'SUCCESSFUL':
            if not cov or cov.group(1) != cov.group(2):
                h['status'], h['reason'] = 'vacuous', 'the end of the harness is unreachable'
            elif not h['checks']:
                h['status'], h['reason'] = 'vacuous', 'no obligation was generated'
            else:
                h['status'], h['reason'] = 'proved', ''
        elif not fails or 'timed out' in b or 'CBMC failed' in b or 'out of memory' in b:
            h['status'], h['reason'] = 'undecided', 'Kani gave no answer: ' + b[-300:]
        elif any(LIMIT.search(a) for a, _ in fails):
            h['status'], h['reason'] = 'undecided', 'beyond the harness: ' + '; '.join(h['failures'][:3])
        else:
            h['status'], h['reason'] = 'failed', '; '.join(h['failures'][:5])
    for ln in out.split('\n'):
        m = re.match(r'(?:Thread (\d+): ?)?(.*)$', ln)
        th, rest = m.group(1), m.group(2)
        c = re.match(r'Checking harness (?:[\w:]*::)?(\w+)\.\.\.', rest)
        if c:
            close()
            block = []
            cur[th] = c.group(1)
            owner = c.group(1)
            continue
        if th is not None:
            close()
            block = []
            owner = cur.get(th)
        if re.match(r'(Manual Harness )?Summary:|Complete - ', rest):
            close()
            block, owner = [], None
            continue
        block.append(rest)
    close()


def replay(res, names, seconds=240):
    """Runs Kani's concrete counterexamples against the compiled crate; returns
    those that really fail."""
    out = []
    t0 = time.time()
    for n in names:
        h = res['harnesses'].get(n) or {}
        left = seconds - (time.time() - t0)
        if out or left < 20 or h.get('status') != 'failed':
            break
        _, o = invoke(res['dir'], int(left), 1, ['--harness', f'vk::{n}', '--exact', '-Z', 'concrete-playback', '--concrete-playback', 'print'], grace=5)
        m = re.search(r'(?:/// Test generated|#\[test\]).*?^\}', o, re.M | re.S)
        t = h['counterexample'] = m.group(0) if m else ''
        h['output'] = o[-6000:]
        m = re.search(r'fn (kani_concrete_playback_\w+)', t)
        if not m:
            continue
        d = res['dir']
        vk = open(f'{d}/src/vk.rs').read()
        open(f'{d}/src/vk.rs', 'w').write(vk + '\n' + t + '\n')
        env = dict(overlay.ENV)
        env.pop('RUSTUP_TOOLCHAIN', None)
        env.pop('RUSTFLAGS', None)
        try:
            p = subprocess.run(['cargo', 'kani', 'playback', '-Z', 'concrete-playback', '--', m.group(1)], cwd=d, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=200)
            if re.search(r'test result: FAILED', p.stdout) and 'panicked at' in p.stdout:
                out.append(dict(harness=n, test=t, output=p.stdout[-2500:]))
        except subprocess.TimeoutExpired:
            pass
        open(f'{d}/src/vk.rs', 'w').write(vk)
    return out
