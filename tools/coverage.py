"""coverage.py: runs every quick check with MC_COV and prints the lines of /repo/jax_fem and the applications that no check executes."""
import ast, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('MC_REPO', '/repo')
out = '/tmp/mc_cov.txt'
ids = sys.argv[1:] or sorted(f[:-3].upper() for f in os.listdir(V + '/mc/checks') if f.startswith('c') and f.endswith('.py'))
if ids != ['REPORT']:
    if os.path.exists(out):
        os.remove(out)
    for i in ids:
        subprocess.run([V + '/check.sh', i], env=dict(os.environ, MC_COV=out))
hit = {}
for l in open(out):
    f, n = l.rsplit(':', 1)
    hit.setdefault(f, set()).add(int(n))
for f in sorted(hit):
    src = open(os.path.join(R, f)).read()
    code = compile(src, f, 'exec')
    lines = set()

    def walk(c):
        lines.update(n for _, _, n in c.co_lines() if n)
        for k in c.co_consts:
            if hasattr(k, 'co_lines'):
                walk(k)
    walk(code)
    miss = sorted(lines - hit[f])
    print('%s: %d of %d lines run' % (f, len(lines & hit[f]), len(lines)))
    txt = src.split(chr(10))
    for n in miss:
        print('   %5d %s' % (n, txt[n - 1][:110]))
