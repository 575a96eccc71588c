"""Runs the failing input of a replay file against the crate in /repo."""
import json, sys, tempfile, shutil
import overlay, search
r = json.load(open(sys.argv[1]))
if 'input' not in r:
    print(json.dumps(r, indent=1))
    sys.exit(0)
c = r['input']

def case(c):
    return c['op'], [bytes.fromhex(a) if k == 'bytes' else a for a, k in zip(c['args'], c['kinds'])]


before = [case(x) for x in c.get('history', [])]  # what has to be run before it
w = tempfile.mkdtemp(prefix='pemv-replay-')
b, _, err = overlay.build_driver(w, open(f'{w}/log', 'w'))
if not b:
    sys.exit('build failed: ' + err)
got = search.run_driver(b, before + [case(c)])[len(before)]
shutil.rmtree(w)
print('call    :', c['op'], c['args'])
print('expected:', c['expected'])
print('got     :', got)
sys.exit(0 if got == c['expected'] else 1)
