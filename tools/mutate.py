"""mutate.py FILE CHECKS [--every K] [--offset J] [--slots S] [--names f,g]: plants one small change at a time into a scratch copy of /repo and runs the
quick checks until one reports it.  Survivors are printed; they are either equivalent or show what the checks miss.  Nothing is committed."""
import argparse
import ast
import concurrent.futures as cf
import copy
import os
import queue
import shutil
import subprocess
import time

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {'logger', 'print', 'debug', 'info', 'warning'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: None, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}


def quiet(node):
    """logging, printing, documentation, exceptions' texts"""
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in SKIP or isinstance(f, ast.Attribute) and (f.attr in SKIP or isinstance(f.value, ast.Name) and f.value.id == 'logger'):
                return True
    return False


def variants(node):
    """(description, function changing a copy of the node in place) for one node"""
    if isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
        yield 'cmp', lambda n: n.ops.__setitem__(0, CMP[type(n.ops[0])]())
    if isinstance(node, ast.BinOp) and BIN.get(type(node.op)) and not isinstance(node.left, ast.Constant) | isinstance(node.right, ast.JoinedStr):
        yield 'op', lambda n: setattr(n, 'op', BIN[type(n.op)]())
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        yield 'neg', lambda n: setattr(n, 'op', ast.UAdd())
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield 'not', lambda n: (setattr(n, 'op', ast.Not()), setattr(n, 'operand', ast.UnaryOp(ast.Not(), n.operand)))
    if isinstance(node, ast.BoolOp):
        yield 'bool', lambda n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())
    if isinstance(node, ast.Constant) and type(node.value) in (int, float, bool):
        v = node.value
        if type(v) is bool:
            yield 'const', lambda n: setattr(n, 'value', not n.value)
        elif type(v) is int:
            yield 'const+1', lambda n: setattr(n, 'value', n.value + 1)
        else:
            yield 'const*', lambda n: setattr(n, 'value', n.value * 1.1 if n.value else .1)
    if isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr)) and not isinstance(getattr(node, 'value', None), ast.Constant):
        if isinstance(node, ast.AugAssign) and isinstance(node.op, (ast.Add, ast.Sub)):
            yield 'aug', lambda n: setattr(n, 'op', ast.Sub() if isinstance(n.op, ast.Add) else ast.Add())
        yield 'drop', None
    if isinstance(node, ast.If):
        yield 'true', lambda n: setattr(n, 'test', ast.Constant(True))
        yield 'false', lambda n: setattr(n, 'test', ast.Constant(False))


def mutants(src, names):
    tree = ast.parse(src)
    sites = []

    def visit(node, fn, inside):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            fn = node.name
            inside = inside or not names or fn in names
        if isinstance(node, (ast.Import, ast.ImportFrom, ast.Raise, ast.Assert, ast.JoinedStr)) or isinstance(node, ast.Expr) and (quiet(node) or isinstance(node.value, ast.Constant)):
            return
        if inside:
            for k, (kind, f) in enumerate(variants(node)):
                sites.append((node, k, kind, fn))
        for c in ast.iter_child_nodes(node):
            visit(c, fn, inside)
    visit(tree, '', not names)
    lines = src.splitlines(keepends=True)
    for node, k, kind, fn in sites:
        new = copy.deepcopy(node)
        kind, f = list(variants(new))[k]
        if f is None:
            text = 'pass'
        elif isinstance(node, ast.If):
            t = node.test
            yield (t, 'True' if kind == 'true' else 'False', kind, fn, lines)
            continue
        else:
            f(new)
            text = ast.unparse(ast.fix_missing_locations(new))
            if not isinstance(node, ast.stmt):
                text = '(%s)' % text if not isinstance(node, ast.Constant) else text
        yield (node, text, kind, fn, lines)


def apply(m, src):
    node, text, kind, fn, _ = m
    raw = src.encode().splitlines(keepends=True)
    a, b = node.lineno - 1, node.end_lineno - 1
    out = raw[:a] + [raw[a][:node.col_offset] + text.encode() + raw[b][node.end_col_offset:]] + raw[b + 1:]
    return b''.join(out).decode()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('checks')
    ap.add_argument('--every', type=int, default=1)
    ap.add_argument('--offset', type=int, default=0)
    ap.add_argument('--slots', type=int, default=4)
    ap.add_argument('--names', default='')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('--timeout', type=int, default=400)
    a = ap.parse_args()
    src = open(os.path.join('/repo', a.file), newline='').read()
    ms = []
    for m in mutants(src, set(filter(None, a.names.split(',')))):
        try:
            t = apply(m, src)
            ast.parse(t)
        except SyntaxError:
            continue
        if t != src:
            ms.append((m, t))
    ms = ms[a.offset::a.every]
    print(a.file, len(ms), 'mutants', flush=True)
    slots = queue.Queue()
    for i in range(a.slots):
        w = '/tmp/mut_%d_%d' % (os.getpid(), i)
        if not a.list:
            shutil.copytree('/repo', w, symlinks=True)
        slots.put(w)

    def one(mt):
        m, t = mt
        w = slots.get()
        p = os.path.join(w, a.file)
        try:
            open(p, 'w', newline='').write(t)
            t0 = time.time()
            for c in a.checks.split(','):
                try:
                    r = subprocess.run(['./check.sh', c], cwd=here, env=dict(os.environ, MC_REPO=w, MC_WORKERS=str(max(1, 8 // a.slots))), capture_output=True, text=True, timeout=a.timeout, start_new_session=True)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc != 0:
                    return 'caught %s rc=%s' % (c, rc), time.time() - t0
            return 'SURVIVED', time.time() - t0
        finally:
            open(p, 'w', newline='').write(src)
            slots.put(w)
    n = 0
    with cf.ThreadPoolExecutor(a.slots) as ex:
        for (m, t), res in zip(ms, map(lambda x: None, ms) if a.list else ex.map(one, ms)):
            node, text, kind, fn, lines = m
            old = lines[node.lineno - 1].strip()[:110]
            res = res or ('', 0)
            n += res[0] == 'SURVIVED'
            print('%s:%d %s [%s] %s  ==> %s (%ds) | %s' % (os.path.basename(a.file), node.lineno, fn, kind, res[0], text[:90].replace('\n', ' '), res[1], old), flush=True)
    print('survived', n, 'of', len(ms))
    while not slots.empty():
        shutil.rmtree(slots.get(), ignore_errors=True)


main()
