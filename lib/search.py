"""Counterexample search: runs the crate's own functions (driver binary) against
the reference behaviour (oracle.py). Used to find a concrete failing input for a
failed obligation, and as the labelled bounded stand-in where an obligation
could not be generated."""
import os, random, subprocess, sys, time, json, tempfile
from concurrent.futures import ProcessPoolExecutor
import gen, literals, overlay

SEP = b'\x1e\n'


def enc(a):
    if isinstance(a, bytes):
        return a.hex()
    return str(a).encode().hex()


def run_cli(binary, spec):
    """The program itself: {argv, env, files, tty} -> stdout, stderr and exit
    status, separated by U+0002; runs in a scratch directory of its own."""
    c = json.loads(spec)
    with tempfile.TemporaryDirectory(prefix='pemv-cli-') as d:
        for n, t in c.get('files', {}).items():
            open(f'{d}/{n}', 'w').write(t)
        env = dict(PATH='/usr/bin:/bin', TERM='xterm', HOME=d)
        env.update(c.get('env', {}))
        m = s = None
        other = []
        if c.get('other_tty'):  # standard error and input are terminals
            import pty
            other = list(pty.openpty())
        if c.get('tty'):
            import pty, tty
            m, s = pty.openpty()
            tty.setraw(s)
        try:
            p = subprocess.Popen([binary] + c['argv'], cwd=d, env=env, stdin=other[1] if other else subprocess.DEVNULL, stdout=s or subprocess.PIPE, stderr=other[1] if other else subprocess.PIPE)
            if s:
                os.close(s)
                so = b''
                try:
                    while True:
                        x = os.read(m, 65536)
                        if not x:
                            break
                        so += x
                except OSError:
                    pass
                os.close(m)
                _, se = p.communicate(timeout=20)
            else:
                so, se = p.communicate(timeout=20)
        except subprocess.TimeoutExpired:
            p.kill()
            return '\x01ABORT hang'
        finally:
            for f in other:
                os.close(f)
    se = se or b''
    if b'panicked at' in se:
        return '\x01PANIC'
    return so.decode('utf-8', 'replace') + '\x02' + se.decode('utf-8', 'replace') + '\x02' + str(p.returncode)


def run_driver(binary, cases, timeout=60):
    """One record (text) per case; None for cases after a hang."""
    if any(op == 'cli' for op, _ in cases):
        rest = iter(run_driver(binary, [c for c in cases if c[0] != 'cli'], timeout))
        return [run_cli(binary, c[1][0]) if c[0] == 'cli' else next(rest) for c in cases]
    out, todo = [], list(cases)
    while todo:
        inp = ''.join(op + ''.join('\t' + enc(a) for a in args) + '\n' for (op, args) in todo).encode()
        try:
            p = subprocess.run([binary, '--vdrv'], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
            so, rc = p.stdout, p.returncode
        except subprocess.TimeoutExpired as e:
            so, rc = e.stdout or b'', 'hang'
        recs = so.split(SEP)
        last = recs.pop()
        out += [r.decode('utf-8', 'replace') for r in recs]
        if len(recs) >= len(todo):
            break
        out.append('\x01ABORT %s' % rc)
        todo = todo[len(recs) + 1:]
    return out


def record(c):
    return dict(op=c[0], args=[x.hex() if isinstance(x, bytes) else str(x) for x in c[1]],
                kinds=['bytes' if isinstance(x, bytes) else 'text' for x in c[1]])


def worker(job):
    binary, prop, seed, deadline, ops_missing, tier, index, procs, known, words = job
    gen.dictionary(*words)
    rng = random.Random(seed)
    n = 0
    distinct = set()
    samples = []
    g = gen.GENS[prop](rng, tier)
    hit = []
    done, enumerating, k = False, True, 0
    while time.time() < deadline and not done:
        cases = []
        while len(cases) < (40 if cases and cases[-1][0] == 'cli' else 400):
            c = next(g, None)
            if c is None:
                done = True
                break
            if not c[0]:
                enumerating = False
                continue
            k += 1
            if enumerating and k % procs != index:
                continue
            if c[0] in ops_missing:
                if time.time() > deadline:
                    break
                continue
            cases.append(c)
            if rng.random() < .03:
                cases.append(rng.choice(cases))  # the same again, later
        if not cases:
            break
        res = run_driver(binary, [c[:2] for c in cases])
        for at, (c, r) in enumerate(zip(cases, res)):
            n += 1
            exp = c[2]
            key = (c[0],) + tuple(enc(a) for a in c[1])
            nontrivial = not (isinstance(exp, str) and (exp == '' or exp.startswith('E')))
            if nontrivial and len(distinct) < 200000:
                distinct.add(hash(key))
            if nontrivial and len(samples) < 2 and rng.random() < 0.05:
                samples.append({'op': c[0], 'args': [x.hex() if isinstance(x, bytes) else str(x) for x in c[1]], 'result': r[:200]})
            ok = exp(r) if callable(exp) else (r == exp)
            if not ok and [c[0], [x.hex() if isinstance(x, bytes) else str(x) for x in c[1]]] in known:
                hit.append([c[0], [x.hex() if isinstance(x, bytes) else str(x) for x in c[1]]])
                continue
            if not ok:
                history = []
                bad = lambda x: not (exp(x) if callable(exp) else x == exp)
                again = run_driver(binary, [c[:2]])[0]
                if bad(again):
                    r = again
                else:
                    # not by itself: with what was run before it?
                    history = [x[:2] for x in cases[:at]]
                    again = (run_driver(binary, history + [c[:2]]) + [''])[at]
                    if not bad(again):
                        continue
                    r = again
                return dict(n=n, distinct=len(distinct), samples=samples, hit=hit, fail=dict(
                    **record(c), got=r, expected=exp if isinstance(exp, str) else 'see rule ' + (getattr(exp, '__doc__', '') or ''),
                    **(dict(history=[record(x) for x in history]) if history else {})))
    return dict(n=n, distinct=len(distinct), samples=samples, hit=hit, fail=None, done=not enumerating or done)


def search(binary, prop, seed, seconds, missing, tier, procs=4, known=()):
    known = [[f['op'], f['args']] for f in known if f['property'] == prop]
    words = literals.new(overlay.REPO)
    dl = time.time() + seconds
    jobs = [(binary, prop, seed * 1000 + i, dl, set(missing), tier, i, procs, known, words) for i in range(procs)]
    n = d = 0
    samples, fail, enum, hit = [], None, True, []
    with ProcessPoolExecutor(procs) as ex:
        for r in ex.map(worker, jobs):
            n += r['n']
            d += r['distinct']
            samples += r['samples']
            fail = fail or r['fail']
            hit += [h for h in r['hit'] if h not in hit]
            enum = enum and r.get('done', False)
    return dict(evaluations=n, distinct_nontrivial=d, samples=samples[:4], fail=fail, enumeration_complete=enum, known_hit=hit)
