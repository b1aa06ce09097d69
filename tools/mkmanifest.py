"""Writes MANIFEST.json from the property modules that exist."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
NOT = {
    'P18': 'A pure function of two arrays without any nondeterminism, state '
           'or I/O (and a TODO in the code already says that the sorter can '
           'repeat a mode for coarse steps).',
}
PLANNED = 'not built yet'
TECH = 'deterministic simulation with fault injection: '
checks = []
claimed = set()
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
for p in props:
    pid = p['id']
    path = os.path.join(here, 'sim', 'props', pid.lower() + '.py')
    if pid in NOT or not os.path.exists(path):
        continue
    ns = {}
    src = open(path).read()
    import ast
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and \
                getattr(node.targets[0], 'id', '') in ('LEVEL', 'ASSUMPTIONS',
                                                       'TECHNIQUE', 'STUB',
                                                       'REAL'):
            ns[node.targets[0].id] = ast.literal_eval(node.value)
    claimed.add(pid)
    cmd = '/opt/venv/bin/python -m sim check %s ' % pid
    checks.append({
        'property': pid, 'quick_cmd': cmd + 'quick',
        'thorough_cmd': cmd + 'thorough',
        'technique': TECH + ns.get('TECHNIQUE', ns['LEVEL']),
        'level': 'exploration',
        'level_note': 'No violation found in the explored runs (bounded '
        'seeded search, not a proof): ' + ns['LEVEL'] + '. Real code: ' +
        ', '.join(ns['REAL']) + '. Stubs: ' + ', '.join(ns['STUB']) +
        '. Assumes: ' + '; '.join(ns['ASSUMPTIONS']) + '.'})
doc = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -m sim selftest',
    'hooks': {'guard': 'none',
              'enable': 'no hooks: every seam is installed from outside '
              '(file system calls, input(), clocks, locks, thread switches) '
              'in the process of the check before the package is imported',
              'source_commits': []},
    'checks': checks,
    'not_applicable': [
        {'property': p['id'], 'reason': NOT.get(p['id'], PLANNED)}
        for p in props if p['id'] not in claimed],
    'notes': 'Run from /verif. Every check imports the package from /repo '
    'directly (pure Python, nothing to build); BPSIM_RUNS and BPSIM_BUDGET '
    'override the number of runs and the wall budget.',
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
