"""Write properties.jsonl and MANIFEST.json from props.py and the check modules.

A property is claimed exactly when mc/checks/<id>.py exists; LEVEL, BOUNDS,
TECHNIQUE and ASSUMPTIONS are read from the module text.
"""
import ast
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P  # noqa: E402

TECH = 'explicit-state exploration of the real code: exhaustive bounded enumeration of histories against a reference model'


def attrs(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            n = node.targets[0].id
            if n in ('LEVEL', 'BOUNDS', 'TECHNIQUE', 'ASSUMPTIONS'):
                out[n] = ast.literal_eval(node.value)
    return out


checks, na = [], []
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
        mod = os.path.join(root, 'mc', 'checks', p['id'].lower() + '.py')
        if not os.path.exists(mod):
            na.append({'property': p['id'], 'reason': 'No check built yet.'})
            continue
        a = attrs(mod)
        note = 'Holds for every execution within: ' + a['BOUNDS'] + '.'
        if a.get('ASSUMPTIONS'):
            note += ' Assumes: ' + '; '.join(a['ASSUMPTIONS']) + '.'
        checks.append({'property': p['id'],
                       'quick_cmd': './check %s --quick' % p['id'],
                       'thorough_cmd': './check %s --thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'],
                       'technique': a.get('TECHNIQUE', TECH),
                       'level': a['LEVEL'], 'level_note': note})
m = {'version': 1,
     'setup_cmd': './setup.sh',
     'hooks': {'guard': 'PYNLO_VERIF', 'enable': 'No hooks are needed: the checks import /repo/src directly and intercept at run time.',
               'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Every check imports pynlo from /repo/src of the current working tree (pure Python, nothing is built).'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not claimed')
