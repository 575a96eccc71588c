"""One check: the deductive engines decide, the counterexample search replays.

exit 0: held; exit 1 + VIOLATION line: broken."""
import json, os, shutil, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
import literals, overlay, search, verus, kani, kanigen
from props import PROPS

VERIF = overlay.VERIF


def write_replay(prop, what):
    d = f'{VERIF}/replay'
    os.makedirs(d, exist_ok=True)
    p = f'{d}/{prop}.json'
    json.dump(what, open(p, 'w'), indent=1)
    return p


def known_findings():
    """open findings: `known: property=<id> op=<op> args=<json list>`"""
    out = []
    p = f'{VERIF}/known-findings.txt'
    for ln in open(p):
        if ln.startswith('known: '):
            f = json.loads(ln[len('known: '):])
            out.append(f)
    return out


def main(prop, tier, seed):
    t0 = time.time()
    cfg = PROPS[prop]
    thorough = tier == 'thorough'
    work = tempfile.mkdtemp(prefix=f'pemv-{prop}-', dir=os.environ.get('PEMV_WORK') or None)
    log = open(f'{work}/log', 'w')
    out = {}

    def guard(name, f):
        def g():
            try:
                out[name] = f()
            except Exception:
                out[name] = dict(crash=traceback.format_exc())
        return g

    def do_search():
        binary, dropped, err = overlay.build_driver(work, log)
        out['binary'] = binary
        r = dict(missing=dropped, error=err if binary is None else '', run=None)
        if binary:
            r['run'] = search.search(binary, prop, seed, 240 if thorough else 25 if literals.changed(overlay.REPO) else cfg.get('search_s', 8), dropped, tier, 8 if thorough or literals.changed(overlay.REPO) else 4, known_findings())
        return r

    # what decides the property, and what its argument rests on: a failure of
    # the latter alone is another property's violation
    own, rests = cfg.get('units', {}), cfg.get('rests', {})
    units = {u: list(dict.fromkeys(own.get(u, []) + rests.get(u, []))) for u in {**own, **rests}}

    def do_verus():
        with ThreadPoolExecutor(3) as ex:
            rs = {u: ex.submit(verus.run, work, u, rlimit=cfg.get('rlimit', 60) * (3 if thorough else 1), timeout=600 if thorough else 300) for u in units}
            return {u: r.result() for u, r in rs.items()}

    def do_kani():
        src = kanigen.source(cfg.get('kani', []), thorough)
        if not src.strip():
            return None
        return kani.run(work, src, timeout=1200 if thorough else 300, jobs=4)

    jobs = {'search': do_search, 'verus': do_verus, 'kani': do_kani}
    ths = [threading.Thread(target=guard(n, f)) for n, f in jobs.items()]
    for t in ths:
        t.start()
    for t in ths:
        t.join()

    obligations, failed, undecided, bounded = [], [], [], []
    trusted, shared, assumptions, lowers, fns = [], [], list(cfg.get('assumptions', [])), [], []
    cmds, solver = [], 0.0
    # -- Verus
    vs = out['verus']
    if 'crash' in vs:
        undecided.append(('verus', vs['crash'][-500:]))
        vs = {}
    for u, mine in units.items():
        r = vs.get(u)
        if r is None:
            continue
        cmds.append(r.get('cmd', f'verus {u}.rs'))
        solver += r['solver_s']
        trusted += [f'{u}.rs: {t}' for t in r['trusted']]
        lowers += [dict(unit=u, **l) for l in r['lowers']]
        shared += [f'{u}.rs relies on the contract of {b} in {a}.rs, discharged ' + ('in this run' if b in units.get(a, []) else 'by another check: ' + ', '.join(q for q, c in PROPS.items() if b in c['units'].get(a, []))) for a, b in r['uses']]
        for l in r['vacuous']:
            undecided.append((f'verus:{u}', 'vacuous: ' + l))
        if not mine:  # a unit of lemmas over the contracts of the others
            ok = not r['error'] and not r['errors']
            obligations.append((f'verus:{u}:lemmas', max(r['verified'], 1), r['verified'] if ok else 0))
            if not ok:
                undecided.append((f'verus:{u}', r['error'] or 'a lemma failed'))
        for f in mine:
            x = r['fns'].get(f)
            name = f'verus:{u}:{f}'
            if x is None:
                undecided.append((name, r['error'] or 'not in the unit'))
                obligations.append((name, 1, 0))
                continue
            fns.append(f"{x['real']} ({x['path']}:{x['line']})")
            obligations.append((name, 1, int(x['status'] == 'proved')))
            crash = [f for f in x['failures'] if verus.CRASH.search(f)]
            if x['status'] == 'failed' and f not in own.get(u, []):
                undecided.append((name, 'the argument rests on this contract, which no longer holds (an alarm of the check it belongs to): ' + '; '.join(x['failures'])))
            elif x['status'] == 'failed' and cfg.get('crash_only') and not crash:
                undecided.append((name, 'the absence of crashes rests on this contract, which no longer holds (an alarm of the check it belongs to): ' + '; '.join(x['failures'])))
            elif x['status'] == 'failed':
                failed.append((name, '; '.join(x['failures']), '\n'.join(b for n, _, b in r['failures'] if n == f)))
            elif x['status'] == 'undecided':
                undecided.append((name, '; '.join(x['failures']) or r['error']))
    # -- Kani
    k = out['kani']
    if k and 'crash' in k:
        undecided.append(('kani', k['crash'][-500:]))
        k = None
    if k:
        cmds.append(k['cmd'])
        for n, h in k['harnesses'].items():
            name = f'kani:{n}'
            solver += h['time']
            if h['status'] == 'proved' and h['bounded']:
                bounded.append(f"{name}: {h['bounded']} ({h['checks']} checks)")
            elif h['status'] == 'proved':
                obligations.append((name, h['checks'], h['checks']))
            else:
                obligations.append((name, max(h['checks'], 1), 0))
                if h['status'] == 'failed':
                    failed.append((name, h['reason'], h.get('output', '')))
                else:
                    undecided.append((name, h['status'] + ': ' + h['reason']))
        fns += cfg.get('kani_fns', [])
    # -- search
    s = out['search']
    fail = None
    run = None
    if 'crash' in s:
        undecided.append(('search', s['crash'][-800:]))
    else:
        run = s['run']
        if run is None:
            undecided.append(('search', 'the driver did not build: ' + s['error'][-800:]))
        else:
            fail = run['fail']
            if s['missing']:
                undecided.append(('search', 'entry points that no longer fit: ' + ', '.join(s['missing'])))
    if (failed or [u for u in undecided if u[0] != 'search']) and not fail and out.get('binary') and run:
        # an obligation failed or was not decided: look harder for an input
        more = search.search(out['binary'], prop, seed + 77, 45, s['missing'], 'thorough', 8, known_findings())
        fail = more['fail']
        run['evaluations'] += more['evaluations']
    lines, rc = [], 0
    for f in known_findings():
        if run and [f['op'], f['args']] in run['known_hit']:
            lines.append(f"KNOWN-FINDING: property={prop} {f['what']}")
    if fail:
        path = write_replay(prop, dict(property=prop, input=fail, how=f'bin/replay {VERIF}/replay/{prop}.json rebuilds the driver from /repo and runs this input',
                                       failed_obligations=[(a, b) for a, b, _ in failed]))
        lines.append(f'VIOLATION property={prop} replay={path}')
        rc = 1
    elif failed:
        confirmed = None
        if k and any(a.startswith('kani:') for a, _, _ in failed):
            confirmed = kani.replay(k, [a[5:] for a, _, _ in failed if a.startswith('kani:')])
        path = write_replay(prop, dict(property=prop, failed_obligations=[dict(obligation=a, reason=b, verifier_output=c) for a, b, c in failed],
                                       counterexample=confirmed or [dict(harness=n, test=h.get('counterexample', '')) for n, h in (k or {'harnesses': {}})['harnesses'].items() if h['status'] == 'failed']))
        lines.append(f'VIOLATION property={prop} replay={path}' + ('' if confirmed else ' no-failing-input-found'))
        rc = 1
    # -- evidence
    n_ob = sum(a for _, a, _ in obligations)
    n_ok = sum(b for _, _, b in obligations)
    level = cfg['level']
    if undecided and level == 'proof' and any(u[0] != 'search' for u in undecided):
        level = 'exploration'
    cov = dict(
        obligations=n_ob, discharged=n_ok, checker_cmd=' ; '.join(dict.fromkeys(cmds)) or f'bin/check {prop}',
        trusted_base=trusted + cfg.get('trusted', []),
        contracts_shared=sorted(dict.fromkeys(shared)),
        functions_under_contract=sorted(dict.fromkeys(fns)),
        per_obligation=[dict(name=a, generated=b, discharged=c) for a, b, c in obligations],
        back_ends='Verus/Z3 (unbounded, function by function); Kani/CBMC (whole input domain of each harness)',
        solver_s=round(solver, 2),
        bounded_stand_ins=bounded + ([f'{a}: {b[:400]} -- decided by the sampled comparison below only' for a, b in undecided]),
        extraction_lowerings=lowers,
        failed_obligations=[dict(name=a, reason=b[:500]) for a, b, _ in failed],
        evaluations=run['evaluations'] if run else 0,
        distinct_nontrivial=run['distinct_nontrivial'] if run else 0,
        rule='counterexample search: cases of lib/gen.py (enumerated boundary cases, then seeded random structured cases) run through the crate built from the working tree and compared with the reference in lib/oracle.py; non-trivial = the reference result is neither empty nor an error; distinct counted per worker process',
        samples=run['samples'] if run else [],
        enumeration_complete=bool(run and run.get('enumeration_complete')),
        explanation=cfg.get('explanation', ''),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 1), violations=rc)
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    print(f'{prop}: {n_ok}/{n_ob} obligations discharged, {len(bounded)} bounded, {cov["evaluations"]} cases searched, {ev["wall_s"]} s')
    for a, b in undecided:
        print(f'  undecided, sampled stand-in used: {a}: {b[:600]}')
    for a, b, _ in failed:
        print(f'  failed obligation: {a}: {b[:600]}')
    if fail:
        print('  failing input: ' + json.dumps({k: v for k, v in fail.items() if k != 'history'})[:1500])
    for ln in lines:
        print(ln)
    log.close()
    if os.environ.get('PEMV_KEEP'):
        print('work: ' + work)
    else:
        shutil.rmtree(work, ignore_errors=True)
    if run is None and not n_ok:
        # nothing at all decided: no answer
        return rc or 2
    return rc


if __name__ == '__main__':
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    sys.exit(main(sys.argv[1], tier, int(os.environ.get('VERIF_SEED', '1') or 1)))
