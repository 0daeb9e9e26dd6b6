"""Writes /verif/MANIFEST.json from the property list and the monitor modules."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(HERE, 'tools', 'techniques.py')).read(), TECH)

props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'mon', 'props', i.lower() + '.py')):
        tech, note = TECH['T'][i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'runtime monitoring: ' + tech, 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'no check has been built yet'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Pure Python code under test: nothing to compile, no hooks in /repo. Every check imports the package from '
              '/repo/src as it is, runs the scenarios of mon/props/<id>.py on it in 8 processes and judges what the '
              'monitors saw. Compiler sanitizers and race detectors have no object here (no native code, no threads of its own; C31 runs it in threads with forced switches), see DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
