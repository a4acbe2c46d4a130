"""addnote.py ID technique note: add or replace a line of notes.json."""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'notes.json')
d = json.load(open(p))
d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
open(p, 'w').write('{\n' + ',\n'.join(json.dumps(k) + ': ' + json.dumps(d[k]) for k in sorted(d)) + '\n}\n')
