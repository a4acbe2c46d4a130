"""plant.py defs.py [id ...]: builds /verif/seeded/<id>/ from definitions BUGS[id] = dict(property, edits=[(file, old, new)], demo, needs, breaks) and confirms each in a scratch copy:
patch applies and touches original lines only, demo passes clean and fails patched, stable tests pass."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '2547a76'
PY = '/opt/venv/bin/python'
env0 = dict(os.environ, JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def sh(cmd, cwd, env=None, t=400):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or env0, capture_output=True, timeout=t)
        return p.returncode, (p.stdout + p.stderr).decode(errors='replace')
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def main(defs, ids):
    ns = {}
    exec(open(defs).read(), ns)
    for i, b in ns['BUGS'].items():
        if ids and i not in ids:
            continue
        w = '/tmp/plant_%s' % i
        if os.path.isdir(w):
            shutil.rmtree(w)
        subprocess.run(['cp', '-a', '/repo', w], check=True)
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(w, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                print(i, 'EDIT', f, 'matches', s.count(old)); ok = False; break
            open(p, 'w', newline='').write(s.replace(old, new))
        if not ok:
            shutil.rmtree(w); continue
        rc, diff = sh(['git', 'diff'], w)
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w', newline='').write(diff)
        open(d + '/demo.py', 'w').write(b['demo'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport JAX_PLATFORMS=cpu PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
        mine = []
        for f in {e[0] for e in b['edits']}:
            rc, bl = sh(['git', 'blame', '-s', '-l', f], w)
            rc, dd = sh(['git', 'diff', '-U0', f], w)
            for l in dd.split('\n'):
                if l.startswith('-') and not l.startswith('---'):
                    rc, base = sh(['git', 'show', BASE + ':' + f], w)
                    if l[1:] not in base.split('\n'):
                        mine.append(l)
        e = dict(env0, PYTHONPATH='/repo')
        rc0, o0 = sh(['bash', d + '/demo.sh'], '/repo', e, 300)
        e = dict(env0, PYTHONPATH=w)
        rc1, o1 = sh(['bash', d + '/demo.sh'], w, e, 300)
        e['JAX_ENABLE_COMPILATION_CACHE'] = 'false'
        rct, ot = sh([PY, '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '--timeout=600'], w, e, 500)
        good = rc0 == 0 and rc1 not in (0, 124) and ' passed' in ot and 'failed' not in ot and not mine
        tail = ot.strip().splitlines()[-1] if ot.strip() else ''
        print(i, 'OK' if good else 'BAD', 'clean', rc0, 'patched', rc1, 'tests', rct, tail, 'not-original' if mine else '', flush=True)
        if rc0:
            print(o0[-1500:])
        print('   patched says:', (o1.strip().splitlines() or [''])[-1][:300], flush=True)
        if mine:
            print('   ', mine)
        shutil.rmtree(w)


main(sys.argv[1], sys.argv[2:])
