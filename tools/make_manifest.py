"""Writes MANIFEST.json from the modules in mc/checks."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = json.load(open(os.path.join(V, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    path = os.path.join(V, 'mc', 'checks', i.lower() + '.py')
    if os.path.exists(path):
        mod = importlib.import_module('mc.checks.' + i.lower())
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd='./check.sh %s --tier quick' % i, thorough_cmd='./check.sh %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=t, level=mod.LEVEL, level_note=n))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import jax, basix, petsc4py, scipy, meshio, gmsh'", checks=checks, not_applicable=na,
         notes='No hooks in /repo: every check imports the unmodified package from /repo and drives its public and documented internal functions.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
