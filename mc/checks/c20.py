"""C20: output files and small utilities.  Space: element types x formats x path forms x data sets (accepted and rejected), histories of writes
to one path, rewriting of version markers, configuration files, wrapper calls."""
import itertools
import re
import json
import os
import pathlib
import numpy as np
from mc import ref, meshes
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (element type, format, path form, data set): the file read back equals mesh and data in single precision under their names, or wrong data is rejected leaving the directory unchanged; '
        'per history of writes, per text with version markers, per JSON value, per wrapper call; non-trivial: data beyond the solution or a rejection')
BOUND = {'quick': '9 element types x 2 formats x 6 path forms x 14 data sets; every position of 9 wrong arrays among up to 3 entries x existing/new file; all histories of 3 writes over 5 operations; all texts of 4 lines over 6 line kinds; JSON values to depth 2; wrapper calls',
         'thorough': 'all data sets for every combination, histories of 4 writes, texts of 6 lines'}
ASSUMPTIONS = ['meshio reads back what it wrote (its own formats)', 'the timing record uses the wall clock of the machine']
FORMATS = ['vtu', 'vtk']
PATHS = ['abs', 'nested', 'bare', 'relative', 'pathlib', 'dots']


def jobs(tier, seed):
    q = tier == 'quick'
    js = [dict(kind='save', ele=e, fmt=f, full=not q) for e in ref.TYPES for f in FORMATS]
    js += [dict(kind='reject', ele=e) for e in (('QUAD4', 'TET4', 'HEX20') if q else ref.TYPES)]
    js += [dict(kind='history', pre=[a], depth=3 if q else 4) for a in range(5)]
    js += [dict(kind='vtu', pre=a, lines=4 if q else 6) for a in range(6)]
    js += [dict(kind='json'), dict(kind='wrappers'), dict(kind='abaqus')]
    return js


def make_fe(ele, k=0):
    from jax_fem.fe import FiniteElement
    from jax_fem.generate_mesh import Mesh
    dim = ref.ELE[ele]['dim']
    pts, cells = meshes.mesh(ele, [2, 1] if dim == 2 else [2, 1, 1])
    pts = meshes.affine(pts, k)
    return FiniteElement(Mesh(pts, cells, ele_type=ele), vec=1, dim=dim, ele_type=ele), pts, cells


def val(n, shape=(), k=0, kind=float):
    a = (1. + k) * np.sin(1.7 * np.arange(n * int(np.prod(shape)) if shape else n) + k) * 10. ** (k % 3)
    a = a.reshape((n,) + tuple(shape))
    if kind == 'int':
        return np.round(50 * a).astype(int)
    if kind == 'bool':
        return a > 0
    if kind == 'special':
        a.reshape(-1)[:3] = [np.nan, np.inf, 1e-30]
        return a
    return a


def datasets(nn, nc):
    """(solution, cell_infos, point_infos)"""
    import jax.numpy as jnp
    out = [(val(nn, (1,)), None, None), (val(nn, (2,), 1), None, None), (val(nn, (3,), 2), [], []), (val(nn), None, None)]
    out += [(val(nn, (1,)), [('p', val(nc, k=3))], None), (val(nn, (3,)), [('p', val(nc, k=3)), ('q_1', val(nc, k=4))], None)]
    out += [(val(nn, (1,)), None, [('T', val(nn, k=5))]), (val(nn, (2,)), None, [('T', val(nn, (1,), 5)), ('v', val(nn, (3,), 1))])]
    out += [(val(nn, (3,)), [('a', val(nc)), ('b', val(nc, k=1)), ('c', val(nc, k=2))], [('d', val(nn, k=3)), ('e', val(nn, (3,), 4)), ('f', val(nn, (9,), 5))])]
    out += [(jnp.asarray(val(nn, (3,))), [('p', jnp.asarray(val(nc)))], [('T', jnp.asarray(val(nn, (1,))))])]
    out += [(val(nn, (1,), 1, 'int'), [('p', val(nc, k=3, kind='int')), ('m', val(nc, kind='bool'))], [('T', val(nn, k=2, kind='int'))])]
    out += [(val(nn, (3,), 0, 'special'), [('p', val(nc, k=1, kind='special') if nc > 2 else val(nc))], [('T', val(nn, kind='special'))])]
    out += [(val(nn, (3,)).astype(np.float32), [('p', val(nc).astype(np.float32))], None)]
    out += [(val(nn, (1,)), (('p', val(nc)), ['r', val(nc, k=2)]), (('T', val(nn)),))]
    return out


def check_file(path, ele, pts, cells, ds):
    import meshio
    m = meshio.read(path)
    if len(m.cells) != 1 or m.cells[0].type != ref.ELE[ele]['meshio'] or not np.array_equal(m.cells[0].data, cells):
        raise CheckFail('cells of the file differ')
    p = np.asarray(m.points)
    if p.shape[0] != len(pts) or not np.allclose(p[:, :pts.shape[1]], pts, rtol=1e-12, atol=0.) or np.any(p[:, pts.shape[1]:]):
        raise CheckFail('points of the file differ')
    sol, ci, pi = ds
    want = {'sol': sol}
    want.update({k: v for k, v in (pi or [])})
    if set(m.point_data) != set(want):
        raise CheckFail('point data %s, expected %s' % (sorted(m.point_data), sorted(want)))
    for k, v in want.items():
        same(k, m.point_data[k], v)
    cw = {k: v for k, v in (ci or [])}
    if set(m.cell_data) != set(cw):
        raise CheckFail('cell data %s, expected %s' % (sorted(m.cell_data), sorted(cw)))
    for k, v in cw.items():
        if len(m.cell_data[k]) != 1:
            raise CheckFail('cell data in %d blocks' % len(m.cell_data[k]))
        same(k, m.cell_data[k][0], v)


def same(k, got, want):
    with np.errstate(over='ignore'):
        w = np.asarray(want).astype(np.float32)
    g = np.asarray(got)
    if g.dtype.kind != 'f' or g.dtype.itemsize != 4:
        raise CheckFail('%s is stored as %s' % (k, g.dtype))
    g = g.reshape(len(g), -1)
    w = w.reshape(len(w), -1)
    if g.shape[1] == 3 and w.shape[1] == 2 and not np.any(g[:, 2]):
        g = g[:, :2]  # legacy VTK stores 2-vectors with a zero third component
    if g.shape != w.shape or not np.array_equal(g, w, equal_nan=True):
        raise CheckFail('%s differs: %s' % (k, ref.diff(g, w)))


def run(job, ctx):
    from jax_fem import utils
    import logging
    logging.getLogger('jax_fem').setLevel(logging.CRITICAL)
    k = job['kind']
    if k == 'save':
        ele, fmt = job['ele'], job['fmt']
        fe, pts, cells = make_fe(ele)
        n = 0
        for i, how in itertools.product(range(14), PATHS):
            if not job['full'] and i > 3 and (i + PATHS.index(how)) % 3:
                continue
            n += 1

            def f():
                ds = datasets(len(pts), len(cells))[i]
                d = os.path.join(ctx.scratch, 'w%d' % n)
                os.makedirs(d)
                old = os.getcwd()
                os.chdir(d)
                try:
                    name = 'u.%s' % fmt
                    path = {'abs': os.path.join(d, name), 'nested': os.path.join(d, 'a', 'b', 'c', name), 'bare': name, 'relative': os.path.join('.', 'x', name),
                            'pathlib': pathlib.Path(d) / 'y' / name, 'dots': os.path.join(d, 'z.dir', 'u.0.1.' + fmt)}[how]
                    keep = [None if x is None else [(a, np.array(b)) for a, b in x] for x in ds[1:]]
                    s0 = np.array(ds[0])
                    utils.save_sol(fe, ds[0], path, ds[1], ds[2])
                    check_file(path, ele, pts, cells, ds)
                    if not np.array_equal(np.array(ds[0]), s0, equal_nan=True) or any(x is not None and any(not np.array_equal(np.asarray(b), c, equal_nan=b.dtype != bool) for (a, b), (_, c) in zip(x, y)) for x, y in zip(ds[1:], keep)):
                        raise CheckFail('the data passed in was modified')
                    files = [f for _, _, fs in os.walk(d) for f in fs if not f.endswith('.h5')]
                    if len(files) != 1:
                        raise CheckFail('files written: %s' % files)
                finally:
                    os.chdir(old)
            ctx.case(['save', ele, fmt, i, how], f, nontrivial=i > 3)
    elif k == 'reject':
        reject(job, ctx, utils)
    elif k == 'history':
        history(job, ctx, utils)
    elif k == 'vtu':
        vtu(job, ctx, utils)
    elif k == 'json':
        js(ctx, utils)
    elif k == 'abaqus':
        abaqus(ctx, utils)
    else:
        wrappers(ctx, utils)


def reject(job, ctx, utils):
    ele = job['ele']
    fe, pts, cells = make_fe(ele)
    nn, nc = len(pts), len(cells)
    badc = [val(nc - 1), val(nc + 1), val(nc, (1,)), val(nc, (3,)), np.array(1.), val(1) if nc > 1 else val(2), val(nn), np.zeros(0), val(1, (nc,))]
    badp = [val(nn - 1), val(nn + 1), val(1), val(nc), np.zeros(0), val(nn - 1, (3,)), val(1, (nn,)), val(2 * nn), val(3, (nn,))]
    for where, b, total in itertools.product(('cell', 'point'), range(9), (1, 2, 3)):
        good = (nc,) if where == 'cell' else None
        b0 = (badc if where == 'cell' else badp)[b]
        if b0.shape == good or (where == 'point' and len(b0) == nn):
            continue
        for pos, exists in itertools.product(range(total), (False, True)):
            def f():
                d = os.path.join(ctx.scratch, 'r')
                os.makedirs(d, exist_ok=True)
                path = os.path.join(d, 'u.vtu')
                if os.path.exists(path):
                    os.remove(path)
                if exists:
                    with open(path, 'w') as g:
                        g.write('old content')
                infos = [('g%d' % i, val(nc if where == 'cell' else nn, k=i)) for i in range(total)]
                infos[pos] = ('bad', (badc if where == 'cell' else badp)[b])
                try:
                    if where == 'cell':
                        utils.save_sol(fe, val(nn, (1,)), path, infos, [('ok', val(nn))])
                    else:
                        utils.save_sol(fe, val(nn, (1,)), path, [('ok', val(nc))], infos)
                except Exception:
                    if exists and open(path).read() != 'old content':
                        raise CheckFail('the existing file was changed by a rejected call')
                    if not exists and os.path.exists(path):
                        raise CheckFail('a rejected call created the file')
                    return 'rejected'
                raise CheckFail('%s data of shape %s accepted (%d nodes, %d cells)' % (where, infos[pos][1].shape, nn, nc))
            ctx.case(['reject', ele, where, b, total, pos, exists], f)


def history(job, ctx, utils):
    """Writes to the same and other paths: the file always holds the last accepted data."""
    worlds = [make_fe('QUAD4'), make_fe('TET4', 1)]
    for n, rest in enumerate(itertools.product(range(5), repeat=job['depth'] - 1)):
        word = job['pre'] + list(rest)

        def f():
            d = os.path.join(ctx.scratch, 'h%d' % n)
            state = {}
            for t, o in enumerate(word):
                w = 1 if o == 1 else 0
                fe, pts, cells = worlds[w]
                path = os.path.join(d, 'b.vtu' if o == 2 else 'a.vtu')
                ds = (val(len(pts), (1,), t), [('c%d' % t, val(len(cells), k=t))] if o != 3 else None, [('n', val(len(pts), k=t + 1))] if o == 3 else None)
                if o == 4:  # rejected write to the first path
                    try:
                        utils.save_sol(fe, ds[0], path, [('x', val(len(cells) + 1))])
                    except Exception:
                        pass
                    else:
                        raise CheckFail('wrong cell data accepted')
                else:
                    utils.save_sol(fe, ds[0], path, ds[1], ds[2])
                    state[path] = (w, ds)
                for p, (ww, dd) in state.items():
                    check_file(p, ['QUAD4', 'TET4'][ww], worlds[ww][1], worlds[ww][2], dd)
                if sorted(os.path.join(d, x) for x in (os.listdir(d) if os.path.exists(d) else [])) != sorted(state):
                    raise CheckFail('directory holds %s' % os.listdir(d))
        ctx.case(['history', word], f)


OLD = '<VTKFile type="UnstructuredGrid" version="2.2">'
NEW = '<VTKFile type="UnstructuredGrid" version="1.0">'
LINES = [OLD, '  ' + OLD + ' <!-- x -->', '<VTKFile type="UnstructuredGrid" version="0.1" byte_order="LittleEndian">', '', '2.2 version="2.2" <Points>2.25 1.0</Points>', '\t<DataArray Name="\u03c3">1 2 3</DataArray>']


def vtu(job, ctx, utils):
    n = 0
    for rest in itertools.product(range(6), repeat=job['lines'] - 1):
        for end, inplace in ((True, False), (False, False), (True, True)):
            word = [job['pre']] + list(rest)
            n += 1
            if (not end or inplace) and sum(word) % 3:
                continue

            def f():
                a, b = os.path.join(ctx.scratch, 'in.vtu'), os.path.join(ctx.scratch, 'out.vtu')
                if inplace:
                    b = a
                text = '\n'.join(LINES[i] for i in word) + ('\n' if end else '')
                with open(a, 'w') as g:
                    g.write(text)
                utils.modify_vtu_file(a, b)
                got = open(b).read()
                if got != text.replace(OLD, NEW):
                    raise CheckFail('output %r for input %r' % (got[:200], text[:200]))
                if not inplace and open(a).read() != text:
                    raise CheckFail('the input file was changed')
            ctx.case(['vtu', word, end, inplace], f, nontrivial=0 in word or 1 in word)


def js(ctx, utils):
    base = [0, -1.5e-9, 'text \u03c3 "q"', True, None, [], {}]
    level = base + [[a, b] for a in base[:4] for b in base] + [{'k': a, 'l m': b} for a in base for b in base[:4]]
    for i, v in enumerate(level + [{'p': a, 'q': [a, {'r': a}]} for a in level]):
        def f():
            p = os.path.join(ctx.scratch, 'c.json')
            with open(p, 'w') as g:
                json.dump(v, g, ensure_ascii=i % 2 == 0)
            text = open(p).read()
            got = utils.json_parse(p)
            if got != v or json.dumps(got) != json.dumps(v):
                raise CheckFail('parsed %r instead of %r' % (got, v))
            if open(p).read() != text:
                raise CheckFail('the file was changed')
        ctx.case(['json', i], f)
    for bad in ('', '{', "{'a': 1}", '[1,]'):
        def f():
            p = os.path.join(ctx.scratch, 'c.json')
            with open(p, 'w') as g:
                g.write(bad)
            try:
                r = utils.json_parse(p)
            except ValueError:
                return 'rejected'
            raise CheckFail('%r parsed as %r' % (bad, r))
        ctx.case(['json', bad], f)


def abaqus(ctx, utils):
    import meshio
    for ele in ref.TYPES:
        for k, fmt in itertools.product((0, 1), ('vtu', 'vtk')):
            def f():
                _, pts, cells = make_fe(ele, k)
                inp, out = os.path.join(ctx.scratch, 'm.inp'), os.path.join(ctx.scratch, 'm.' + fmt)
                m = meshio.Mesh(pts, {ref.ELE[ele]['meshio']: cells})
                try:
                    m.write(inp)
                    r = meshio.read(inp)
                except Exception:
                    ctx.outcome('type unknown to the Abaqus format')
                    return 'format cannot hold it'
                utils.read_abaqus_and_write_vtk(inp, out)
                g = meshio.read(out)
                if len(g.cells) != len(r.cells) or any(a.type != b.type or not np.array_equal(a.data, b.data) for a, b in zip(g.cells, r.cells)):
                    raise CheckFail('cells differ')
                dd = r.points.shape[1]
                if not np.allclose(g.points[:, :dd], r.points, rtol=1e-12, atol=1e-14):
                    raise CheckFail('points differ')
                ctx.outcome('converted')
            ctx.case(['abaqus', ele, k, fmt], f)


class _Boom(Exception):
    pass


def wrappers(ctx, utils):
    import logging
    import time
    import jax
    plat = jax.default_backend()
    rets = [None, 0, (1, 2), {'a': [1]}, np.arange(3), 'x']
    calls = [((), {}), ((1,), {}), ((1, 2), dict(k=3)), ((), dict(k=[1])), (([1, 2],), dict(a=None))]
    log = logging.getLogger('jax_fem')

    class H(logging.Handler):
        def __init__(self):
            super().__init__()
            self.rec = []

        def emit(self, r):
            self.rec.append(r.getMessage())
    for which, (i, r), (j, c) in itertools.product(('timeit', 'walltime', 'walltime-file', 'walltime-name'), enumerate(rets), enumerate(calls)):
        for raising in (False, True):
            def f():
                seen = []

                def my_function(*a, **kw):
                    """doc"""
                    seen.append((a, kw))
                    if i == 0 and not raising:
                        time.sleep(0.02)
                    if raising:
                        raise _Boom()
                    return r
                d = os.path.join(ctx.scratch, 'wt', which, str(i), str(j), str(raising))
                g = {'timeit': utils.timeit, 'walltime': utils.walltime(), 'walltime-file': utils.walltime(d), 'walltime-name': utils.walltime(d, 'nm')}[which](my_function)
                h = H()
                old = log.level
                log.addHandler(h)
                log.setLevel(logging.DEBUG)
                for other in log.handlers:
                    if other is not h:
                        other.setLevel(logging.CRITICAL)
                try:
                    for rep in range(3):
                        t0 = time.time()
                        try:
                            out = g(*c[0], **c[1])
                            if raising:
                                raise CheckFail('the exception of the function was swallowed')
                        except _Boom:
                            if not raising:
                                raise
                            if os.path.isdir(d) and os.listdir(d):
                                raise CheckFail('a failed call left a record')
                            continue
                        t1 = time.time()
                        if out is not r:
                            raise CheckFail('returns %r instead of %r' % (out, r))
                        if len(seen) != rep + 1 or seen[-1][0] != c[0] or seen[-1][1] != c[1] or any(x is not y for x, y in zip(seen[-1][0], c[0])):
                            raise CheckFail('function called with %r' % (seen[-1:],))
                        if not any('my_function' in m for m in h.rec):
                            raise CheckFail('no log record names the function')
                        took = [float(x) for m in h.rec[-1:] for x in re.findall(r'[-+]?\d+\.\d+(?:[eE][-+]?\d+)?', m)]
                        if not any((0.019 if i == 0 else 0.) <= v <= t1 - t0 + 2e-3 for v in took):
                            raise CheckFail('logged %r for a call that took at most %.4f s' % (h.rec[-1:], t1 - t0))
                        if which in ('walltime-file', 'walltime-name'):
                            nm = os.path.join(d, '%s_%s.txt' % ('nm' if which == 'walltime-name' else 'walltime', plat))
                            if os.listdir(d) != [os.path.basename(nm)]:
                                raise CheckFail('record files %s' % os.listdir(d))
                            lines = open(nm).read().split('\n')
                            if len(lines) != 2 or lines[1]:
                                raise CheckFail('record %r' % lines)
                            a, b, e = [float(x) for x in lines[0].split(',')]
                            if not (t0 - 1e-3 <= a <= b <= t1 + 1e-3) or not abs(e - (b - a)) <= 1e-6:
                                raise CheckFail('record %r for a call between %r and %r' % (lines[0], t0, t1))
                        elif os.path.exists(d):
                            raise CheckFail('a record was written without a directory')
                finally:
                    log.removeHandler(h)
                    log.setLevel(old)
                    for other in log.handlers:
                        other.setLevel(logging.NOTSET)
                if which == 'timeit' and (g.__name__ != 'my_function' or g.__doc__ != 'doc'):
                    raise CheckFail('the wrapper hides the name of the function')
            ctx.case(['wrapper', which, i, j, raising], f)
