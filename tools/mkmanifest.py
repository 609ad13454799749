"""Regenerates MANIFEST.json from the checks that exist."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {
    'C18': 'pure function of its inputs: no schedule, clock, I/O, randomness or failure to simulate; worlds here always solve batches of one',
}
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(HERE, 'dsim', 'checks', i.lower() + '.py')):
        na.append({'property': i, 'reason': NA.get(i, 'no check yet')})
        continue
    m = importlib.import_module('dsim.checks.' + i.lower())
    checks.append({
        'property': i, 'quick_cmd': './check.sh ' + i, 'thorough_cmd': './check.sh %s --tier thorough' % i,
        'technique': 'deterministic simulation with fault injection: seeded search over schedules and faults of the real code, ' + m.TECH,
        'level': 'exploration',
        'level_note': 'No violation in the seeded runs explored (%d quick, %d thorough); nothing is proved beyond them. Runs real: %s. Assumes: %s.'
                      % (m.RUNS['quick'], m.RUNS['thorough'], ', '.join(m.REAL), '; '.join(m.ASSUMPTIONS) or 'nothing further')})
json.dump({'version': 1, 'setup_cmd': './check.sh setup', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: every source of nondeterminism is reached through existing seams (see DESIGN.md). '
                    'Replay a violation with ./check.sh <property> --replay <file>.'},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
