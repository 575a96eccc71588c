"""Verus engine: renders a unit from /repo's current source, verifies it, runs
the vacuity variant, classifies the outcome per function under contract."""
import json, os, re, subprocess, time, signal
from concurrent.futures import ThreadPoolExecutor
import extract as X

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FAIL = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|assertion failed|'
                  r'possible arithmetic underflow/overflow|possible division by zero|could not prove termination|'
                  r'decreases not satisfied|possible bit shift|unable to prove|index out of bounds|requires not satisfied|'
                  r'assertion not satisfied|unreached code might be reached|unreachable', re.I)

# failures that stand for a crash, an overflow or an endless loop
CRASH = re.compile(r'precondition not satisfied|requires not satisfied|arithmetic underflow/overflow|division by zero|termination|decreases not satisfied|bit shift|index out of bounds|unreach', re.I)


def _verus(path, rlimit, multi, timeout):
    cmd = ['verus', os.path.basename(path), '--rlimit', str(rlimit), '--triggers-mode', 'silent', '--no-report-long-running',
           '--multiple-errors', str(multi), '--output-json', '--time-expanded', '--num-threads', '4']
    p = subprocess.Popen(cmd, cwd=os.path.dirname(path), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, e = p.communicate()
        e += '\nerror: verus timed out'
    try:
        j = json.loads(o)
    except ValueError:
        j = {}
    return ' '.join(cmd), j, e


def errors(text, fname):
    """(message, line, text of the block)"""
    out = []
    for b in re.split(r'\n(?=error|warning|note: )', '\n' + text):
        b = b.strip('\n')
        if not b.startswith('error'):
            continue
        m = re.match(r'error(?:\[E\d+\])?: (.*)', b)
        lines = [int(x) for x in re.findall(r'--> ' + re.escape(fname) + r':(\d+):', b)]
        out.append((m.group(1), lines, b))
    return out


TRUST = [
    (r'#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:proof )?fn (\w+)', 'assumed contract (body not verified here): {}'),
    (r'assume_specification[^\[]*\[\s*([^\]]*(?:\[[^\]]*\][^\]]*)*?)\]\s*\(', 'assumed contract on the standard library: {}'),
    (r'\bassume\(([^;]*)\);', 'assumption in a proof: {}'),
    (r'\b(admit\(\))', '{}'),
    (r'axiom fn (\w+)', 'axiom: {}'),
]


def trusted(text):
    out = []
    for pat, fmt in TRUST:
        for m in re.finditer(pat, text):
            out.append(fmt.format(re.sub(r'\s+', ' ', m.group(1))))
    return out


def run(work, unit, rlimit=60, timeout=400, vacuity=True):
    """dict(status 'ok'|'undecided', error, fns {name: {status, path, failures}}, ...)

    A function whose body no longer fits its annotations (or the verifier) is
    left undecided; the others are still verified, against its contract."""
    stubs, t0 = {}, time.time()
    for _ in range(6):
        res, misfits = attempt(work, unit, stubs, rlimit, timeout, vacuity)
        if not misfits or time.time() - t0 > timeout:
            break
        stubs.update(misfits)
    bad = [n for n, f in res['fns'].items() if f['status'] == 'failed']
    if bad and not res['error']:
        again(work, unit, stubs, rlimit, timeout, res, bad)
    res['wall'] = round(time.time() - t0, 1)
    return res


def again(work, unit, stubs, rlimit, timeout, res, bad):
    """A second attempt at the failed functions, with the proof text of
    extract.split_hints: what it proves is proved."""
    spans = {f['name']: f for f in res['spans']}
    h = {n: X.literals_of(res['text'], spans[n]['lo'], spans[n]['hi']) for n in bad if n in spans}
    for n in h:
        r2, misfits = attempt(work, unit, dict(stubs), rlimit, timeout, False, {n: h[n]})
        if not misfits and not r2['error'] and r2['fns'].get(n, {}).get('status') == 'proved':
            res['fns'][n] = r2['fns'][n]
            res['failures'] = [f for f in res['failures'] if f[0] != n]
            res['errors'] -= 1
            res['verified'] += 1
            res['solver_s'] = round(res['solver_s'] + r2['solver_s'], 2)


def attempt(work, unit, stubs, rlimit, timeout, vacuity, hints=None):
    res = dict(unit=unit, status='undecided', error='', fns={}, failures=[], trusted=[], lowers=[], items=[], uses=[], solver_s=0, verified=0, errors=0, vacuous=[], text='', output='')
    tpl = f'{VERIF}/spec/verus/{unit}.rs'
    try:
        u = X.render(tpl, stubs=stubs, hints=hints)
        v = X.render(tpl, vac=True, stubs=stubs) if vacuity else None
    except X.Lost as e:
        res['error'] = f'contract anchor lost: {e}'
        return res, {}
    except (ValueError, IndexError, re.error) as e:
        res['error'] = f'extraction failed: {e}'
        return res, {}
    d = f'{work}/verus_{unit}' + ('_again' if hints else '')
    os.makedirs(d, exist_ok=True)
    open(f'{d}/{unit}.rs', 'w').write(u.text)
    res['file'] = f'{d}/{unit}.rs'
    res['text'], res['lowers'], res['items'], res['uses'] = u.text, u.lowers, u.items, u.uses
    res['trusted'] = trusted(u.text)
    res['spans'] = u.fns
    with ThreadPoolExecutor(2) as ex:
        fv = None
        if vacuity:
            os.makedirs(f'{d}/vac', exist_ok=True)
            open(f'{d}/vac/{unit}.rs', 'w').write(v.text)
            fv = ex.submit(_verus, f'{d}/vac/{unit}.rs', 3, 30, timeout)
        res['cmd'], j, err = _verus(f'{d}/{unit}.rs', rlimit, 4, timeout)
        vac = fv.result() if fv else None
    res['output'] = err[-12000:]
    vr = j.get('verification-results', {})
    res['verified'], res['errors'] = vr.get('verified', 0), vr.get('errors', 0)
    smt = j.get('times-ms', {}).get('smt', {})
    res['solver_s'] = round(smt.get('smt-run', 0) / 1000, 2)
    times = {}
    ok = {}
    for m in smt.get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            n = f['function'].split('::')[-1]
            times[n] = round(times.get(n, 0) + f['time-micros'] / 1e6, 3)
            ok[n] = ok.get(n, True) and f['success']
    res['queries'] = sum(len(m.get('function-breakdown', [])) for m in smt.get('smt-run-module-times', []))
    es = [e for e in errors(err, f'{unit}.rs') if 'aborting due to' not in e[0]]
    hard = [e for e in es if not FAIL.search(e[0]) and 'rlimit' not in e[0]]
    for f in u.fns:
        res['fns'][f['name']] = dict(path=f['path'], line=f['line'], real=f['real'], status='undecided' if f['name'] in stubs else 'proved', failures=[stubs[f['name']]] if f['name'] in stubs else [], time=times.get(f['name'], 0))
    if hard or not vr or vr.get('encountered-vir-error'):
        res['error'] = 'not accepted by the verifier: ' + ('; '.join(e[0] for e in hard[:4]) or err[-300:])
        for f in res['fns'].values():
            f['status'] = 'undecided'
        misfits = {}
        for msg, lines, block in hard:
            for f in u.fns:
                if lines and f['lo'] <= lines[0] <= f['hi'] and f['name'] not in stubs and not f.get('const'):
                    misfits[f['name']] = 'not accepted by the verifier: ' + msg
        return res, misfits
    loose = []
    for msg, lines, block in es:
        own = [f for f in u.fns if any(f['lo'] <= l <= f['hi'] for l in lines[:1])] or [f for f in u.fns if any(f['lo'] <= l <= f['hi'] for l in lines)]
        if not own:
            loose.append((msg, lines, block))
            continue
        r = res['fns'][own[0]['name']]
        if 'rlimit' in msg:
            if r['status'] == 'proved':
                r['status'] = 'undecided'
            r['failures'].append('resource limit')
        else:
            src = ''
            m = re.search(r'\n\s*\d+ \|[^\n]*\S[^\n]*', block)
            src = re.sub(r'^\s*\d+ \|\s*', '', m.group(0).strip('\n')) if m else ''
            r['status'] = 'failed'
            if own[0].get('open'):
                r['status'] = 'undecided'
                r['failures'].append('a closure without a contract: ' + own[0]['open'][0])
            r['failures'].append(f'{msg}: {src.strip()[:160]}')
            if r['status'] == 'failed':
                res['failures'].append((own[0]['name'], msg, block[:3000]))
    if loose:
        res['error'] = 'a lemma of the specification failed: ' + '; '.join(f'{m} at {l}' for m, l, _ in loose[:3])
        for f in res['fns'].values():
            if f['status'] == 'proved':
                f['status'] = 'undecided'
        res['loose'] = loose
        return res, {}
    res['status'] = 'ok'
    if vac:
        _, vj, ve = vac
        want = [i + 1 for i, l in enumerate(v.text.split('\n')) if '// vacuity' in l]
        ves = errors(ve, f'{unit}.rs')
        hit = {l for m, ls, _ in ves if 'assertion failed' in m for l in ls}
        limit = [f['name'] for f in v.fns for m, ls, _ in ves if 'rlimit' in m and any(f['lo'] <= l <= f['hi'] for l in ls)]
        res['vac_checked'] = len(want)
        if not vj.get('verification-results'):
            res['vacuous'] = ['the vacuity variant was not accepted: ' + ve[-300:]]
        for l in want:
            f = [f['name'] for f in v.fns if f['lo'] <= l <= f['hi']]
            if l not in hit and f and f[0] not in limit and f[0] not in stubs:
                res['vacuous'].append(f'{f[0]}: `assert(false)` at line {l} of the vacuity variant was accepted')
    return res, {}
