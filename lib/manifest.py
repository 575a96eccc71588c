"""Writes MANIFEST.json from lib/props.py (run by hand after changing it)."""
import json
from overlay import VERIF
from props import PROPS, NOT_APPLICABLE

TECH = {
    (1, 1): 'deductive verification: Verus contracts on the extracted functions, Kani full-domain harnesses on the crate; failing inputs by replayed search',
    (1, 0): 'deductive verification: Verus contracts on the extracted functions; failing inputs by replayed search',
    (0, 1): 'deductive verification: Kani full-domain contract harnesses on the crate; failing inputs by replayed search',
    (0, 0): 'sampled stand-in for contracts not yet discharged (comparison with the reference)',
}


def main():
    checks = []
    for p, c in PROPS.items():
        note = c.get('note') or ''
        checks.append(dict(property=p, quick_cmd=f'bin/check {p}', thorough_cmd=f'bin/check {p} --thorough',
                           technique=TECH[int(bool(c['units'])), int(bool(c['kani']))], level=c['level'],
                           level_note=(note + ' ' if note else '') + 'Assumes: ' + '; '.join(c['assumptions']) + '.'))
    m = dict(version=1, setup_cmd='bin/setup', checks=checks,
             not_applicable=[dict(property=a, reason=b) for a, b in NOT_APPLICABLE.items()],
             notes='Every check renders its proof obligations from /repo/src on each run; nothing is cached between runs. No hooks are needed in /repo.')
    json.dump(m, open(f'{VERIF}/MANIFEST.json', 'w'), indent=1)


main()
