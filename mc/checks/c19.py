"""C19: filter and optimisation loop.  Space: meshes x flexible-cell subsets x filter flags x shapes; all short runs of the loop against a reference loop."""
import itertools
import numpy as np
from mc import ref, meshes
from mc.core import CheckFail
from mc.checks import c18

LEVEL = 'exploration'
RULE = ('one case per (mesh, flexible cells): filter weights against the cone formula; per (flags, shape, constraints, iterations): every call of the objective and constraint handles, every design and the result '
        'against a reference loop; per convex problem: distance to the known optimum; non-trivial: at least two flexible cells or one iteration')
BOUND = {'quick': 'filter: 5 element types x grids up to 5x4 (QUAD4), 4x3 (TRI3), 3x2 (QUAD8), 3x3x2 (HEX8), 3x2x2 (TET4) x 5 (all 2^6 on the 3x2 grid) flexible subsets x array kinds; loop: 4 flag pairs x 3 design shapes x 3 constraint counts x 0..4 iterations x 3 move limits; 24 convex problems; all histories of 3 runs over 3 configurations',
         'thorough': 'filter grids up to 9x7 (5x4x3), all 2^9 subsets of the 3x3 grid; loop up to 7 iterations; 96 convex problems; histories of 4 runs'}
ASSUMPTIONS = ['objective and constraint handles are deterministic and return arrays', 'meshes on which at most 20 cells lie within the filter radius (the code looks at the 20 nearest cells)']


def jobs(tier, seed):
    q = tier == 'quick'
    js = [dict(kind='filter', ele=e, n={'QUAD4': [5, 4], 'TRI3': [4, 3], 'QUAD8': [3, 2], 'HEX8': [3, 3, 2], 'TET4': [3, 2, 2]}[e] if q else ([9, 7] if ref.ELE[e]['dim'] == 2 else [5, 4, 3])) for e in ('QUAD4', 'TRI3', 'QUAD8', 'HEX8', 'TET4')]
    k = 6 if q else 9
    js += [dict(kind='subsets', n=[3, 2] if q else [3, 3], part=[i, 4], bits=k) for i in range(4)]
    for d, s in itertools.product((False, True), repeat=2):
        for shp in (1, 2, 3):
            js.append(dict(kind='loop', dens=d, sens=s, k=shp, its=list(range(5 if q else 8))))
    for part in range(8):
        js.append(dict(kind='convex', part=[part, 8], n=24 if q else 96))
    for a in range(3):
        js.append(dict(kind='history', pre=[a], depth=3 if q else 4))
    js.sort(key=lambda j: j['kind'] != 'convex')
    return js


def make_fe(ele, n, flex, size=None, arr=None):
    from jax_fem.fe import FiniteElement
    from jax_fem.generate_mesh import Mesh
    pts, cells = meshes.mesh(ele, n, size)
    m = Mesh(pts, cells, ele_type=ele)
    if arr == 'numpy':
        m.points, m.cells = pts, cells
    fe = FiniteElement(m, vec=1, dim=pts.shape[1], ele_type=ele)
    fe.shape_grads, fe.JxW = fe.get_shape_grads()  # as Problem does
    fe.flex_inds = np.asarray(flex) if arr != 'jaxflex' else _j(flex)
    return fe, pts, cells


def _j(a):
    import jax.numpy as jnp
    return jnp.asarray(np.asarray(a))


def cone(ele, pts, cells, flex):
    V = ref.Space(ele, pts, cells, 1).geometry()['W'].sum()
    r = 1.5 * (V / len(cells)) ** (1. / pts.shape[1])
    c = pts[cells].mean(1)[np.asarray(flex)]
    d = np.linalg.norm(c[:, None] - c[None], axis=-1)
    return np.maximum(r - d, 0.)


def check_filter(mma, ele, n, flex, size=None, arr=None, km=((1, 1), (2, 3))):
    fe, pts, cells = make_fe(ele, n, flex, size, arr)
    W = cone(ele, pts, cells, flex)
    if (W > 0).sum(1).max() > 20:
        return None
    H, Hs = mma.compute_filter_kd_tree(fe)
    Hd, Hs = np.asarray(H.todense()), np.asarray(Hs)
    if Hs.shape != (len(flex),) or not ref.close(Hd, W, 1e-9, 1e-12):
        raise CheckFail('filter weights differ from the cone weights: %s' % ref.diff(Hd, W))
    if not ref.close(Hs, W.sum(1), 1e-9, 1e-12):
        raise CheckFail('filter sums differ: %s' % ref.diff(Hs, W.sum(1)))
    ft = {'H': H, 'Hs': _j(Hs)}
    nf = len(flex)
    for k, m in km:
        rho = .5 + .5 * np.cos(1.3 * np.arange(nf * k).reshape(nf, k))
        rho.reshape(-1)[:1] = 0.
        got = np.asarray(mma.applyDensityFilter(ft, _j(rho)))
        if not ref.close(got, W @ rho / W.sum(1)[:, None], 1e-10, 1e-12):
            raise CheckFail('density filter: %s' % ref.diff(got, W @ rho / W.sum(1)[:, None]))
        if nf and not ref.close(np.asarray(mma.applyDensityFilter(ft, np.ones((nf, k)))), np.ones((nf, k)), 1e-12, 0.):
            raise CheckFail('the density filter does not keep constants')
        dJ = np.sin(1. + np.arange(nf * k).reshape(nf, k))
        dvc = np.cos(np.arange(m * nf * k)).reshape(m, nf, k)
        want = ref_sens(W, rho, dJ, dvc)
        keep = rho.copy(), dJ.copy(), dvc.copy()
        g = mma.applySensitivityFilter(ft, rho, dJ, dvc)
        for a, b, nm in zip(g, want, ('objective', 'constraint')):
            if not ref.close(a, b, 1e-10, 1e-12):
                raise CheckFail('sensitivity filter of the %s gradient (m=%d, k=%d): %s' % (nm, m, k, ref.diff(a, b)))
        for a, b in zip((rho, dJ, dvc), keep):
            if not np.array_equal(a, b):
                raise CheckFail('the filter modifies its arguments')
    return W


def ref_sens(W, rho, dJ, dvc):
    s = W.sum(1)[:, None]
    f = rho / np.maximum(1e-3, rho) / s
    return W @ (f * dJ), np.stack([W @ (f * d) for d in dvc])


def run(job, ctx):
    import logging
    from jax_fem import mma
    logging.getLogger('jax_fem').setLevel(logging.CRITICAL)
    k = job['kind']
    if k == 'filter':
        dim = ref.ELE[job['ele']]['dim']
        mx = job['n'] if dim == 2 else job['n']
        seen = 0
        for n in itertools.product(*[range(1, m + 1) for m in mx]):
            ncell = len(meshes.mesh(job['ele'], list(n))[1])
            subs = [list(range(ncell)), list(range(0, ncell, 2)), list(range(ncell))[::-1], [ncell - 1], sorted(set([0, ncell // 2, ncell - 1]))]
            for i, (s, size) in enumerate(itertools.product(subs, ([1.] * dim, [.5 * v for v in n], [2., .9, 1.1][:dim]))):
                arr = [None, 'numpy', 'jaxflex'][(i + sum(n)) % 3]
                if arr == 'jaxflex' and len(s) == 1:
                    arr = None
                if i % 3 and (i + n[0]) % 2:
                    continue
                r = ctx.case(['filter', n, i, arr], lambda: ctx.outcome('more than 20 neighbours' if check_filter(mma, job['ele'], list(n), s, size, arr, [[(1, 1)], [(2, 1)], [(1, 2)], [(2, 3)]][(i + sum(n)) % 4]) is None else 'checked'), nontrivial=len(s) > 1)
    elif k == 'subsets':
        for b in range(1 + job['part'][0], 2 ** job['bits'], job['part'][1]):
            s = [i for i in range(job['bits']) if b >> i & 1]
            ctx.case(['subset', s], lambda: check_filter(mma, 'QUAD4', job['n'], s, [3., 2.]) is None, nontrivial=len(s) > 1)
    elif k == 'loop':
        loop(job, ctx, mma)
    elif k == 'convex':
        convex(job, ctx, mma)
    else:
        # runs one after another in one process: no run depends on earlier ones
        base = [config(mma, i) for i in range(3)]
        alone = [one_run(mma, c)[0] for c in base]
        for rest in itertools.product(range(3), repeat=job['depth'] - 1):
            word = job['pre'] + list(rest)

            def f():
                for o in word:
                    r, _ = one_run(mma, base[o])
                    if not np.array_equal(r, alone[o]):
                        raise CheckFail('run %d after %s differs from a first run: %s' % (o, word, ref.diff(r, alone[o])))
            ctx.case(['history', word], f)


def flags(mma, dens, sens):
    old = mma.density_filtering, mma.sensitivity_filtering
    mma.density_filtering, mma.sensitivity_filtering = dens, sens
    return old


def handles(n, k, m, log, kind=0):
    import jax.numpy as jnp
    w = 1. + .5 * np.sin(np.arange(n * k)).reshape(n, k)
    t = .5 + .4 * np.cos(2. + np.arange(n * k)).reshape(n, k)

    def wrap(a):
        return a if kind else jnp.asarray(a)

    def obj(rho):
        r = np.asarray(rho)
        log.append(('J', r.copy(), type(rho).__name__))
        out = wrap((2. * w * (r - t)))
        J = float((w * (r - t) ** 2).sum())
        return (J if kind else jnp.asarray(J)), out

    def cons(rho, it):
        r = np.asarray(rho)
        log.append(('C', r.copy(), it))
        A = np.cos(np.arange(m)[:, None, None] * 1.7 + np.arange(n * k).reshape(1, n, k) * .6) / (n * k)
        vc = (A * r[None]).sum((1, 2)) - .1 * np.arange(1, m + 1) * it ** .5
        return wrap(vc), wrap(A)
    return obj, cons, w, t


def config(mma, i):
    ele, n, flex = [('QUAD4', [3, 2], [0, 1, 2, 4, 5]), ('TRI3', [2, 1], [0, 1, 2, 3]), ('HEX8', [2, 1, 1], [0, 1])][i]
    fe, _, _ = make_fe(ele, n, flex)
    rho0 = .4 + .05 * np.arange(len(flex))[:, None]
    return dict(fe=fe, rho=rho0, k=1, m=1 + i, its=2 + i, move=[.2, .1, .5][i])


def one_run(mma, c):
    log = []
    n = len(c['fe'].flex_inds)
    obj, cons, _, _ = handles(n, c['k'], c['m'], log)
    prm = {'maxIters': c['its'], 'movelimit': c['move']}
    return np.asarray(mma.optimize(c['fe'], c['rho'], prm, obj, cons, c['m'])), log


def loop(job, ctx, mma):
    import jax.numpy as jnp
    k = job['k']
    flex = [0, 1, 2, 3, 5]
    fe, pts, cells = make_fe('QUAD4', [3, 2], flex, [3., 2.])
    W = cone('QUAD4', pts, cells, flex)
    n = len(flex)
    for its, m, mv, typ in itertools.product(job['its'], (1, 2, 3), (.05, .2, 1.), (0, 1)):
        if typ and (its + m) % 2:
            continue

        def f():
            rho0 = np.clip(.5 + .6 * np.sin(1.7 * np.arange(n * k).reshape(n, k)), 0., 1.)
            arg = rho0.copy() if typ else jnp.asarray(rho0)
            log = []
            obj, cons, w, t = handles(n, k, m, log, typ)
            prm = {'movelimit': mv, 'maxIters': its}
            keep = dict(prm)
            old = flags(mma, job['dens'], job['sens'])
            try:
                out = mma.optimize(fe, arg, prm, obj, cons, m)
            finally:
                flags(mma, *old)
            if prm != keep or not np.array_equal(np.asarray(arg), rho0) or not np.array_equal(np.asarray(fe.flex_inds), flex):
                raise CheckFail('optimize modified its arguments')
            if np.shape(out) != (n, k):
                raise CheckFail('result shape %s' % (np.shape(out),))
            if [l[0] for l in log].count('J') != its or [l[0] for l in log].count('C') != its or len(log) != 2 * its:
                raise CheckFail('%d iterations made the calls %s' % (its, [l[0] for l in log]))
            # reference loop: the filtered gradients, the asymptote model and the optimality conditions of each step
            x = rho0.reshape(-1)
            mod = c18.Model(np.zeros(n * k), np.ones(n * k), mv)
            mod.register(x, x)
            x1 = x
            designs = []
            from jax_fem.mma import MMA
            M = MMA()
            M.setNumConstraints(m)
            M.setNumDesignVariables(n * k)
            M.setMinandMaxBoundsForDesignVariables(np.zeros((n * k, 1)), np.ones((n * k, 1)))
            M.setScalingParams(1., np.zeros((m, 1)), 1e4 * np.ones((m, 1)), np.zeros((m, 1)))
            M.setMoveLimit(mv)
            M.setLowerAndUpperAsymptotes(np.ones((n * k, 1)), np.ones((n * k, 1)))
            M.registerMMAIter(x[:, None], x[:, None], x[:, None])
            for it in range(1, its + 1):
                rho = x.reshape(n, k)
                phys = W @ rho / W.sum(1)[:, None] if job['dens'] else rho
                mine = [l for l in log if l[0] == 'J'][it - 1], [l for l in log if l[0] == 'C'][it - 1]
                for l in mine:
                    if not ref.close(l[1], phys, 1e-7, 1e-8):
                        raise CheckFail('iteration %d evaluates %s at another design: %s' % (it, 'the objective' if l[0] == 'J' else 'the constraints', ref.diff(l[1], phys)))
                if mine[1][2] != it:
                    raise CheckFail('iteration %d passes the number %s' % (it, mine[1][2]))
                J, dJ = handles(n, k, m, [], 1)[0](phys)
                vc, dv = handles(n, k, m, [], 1)[1](phys, it)
                if job['sens']:
                    dJ, dv = ref_sens(W, rho, dJ, dv)
                M.setObjectiveWithGradient(np.array(J), dJ.reshape(-1)[:, None])
                M.setConstraintWithGradient(vc[:, None], dv.reshape(m, -1))
                M.mmasub(x[:, None])
                low, upp, al, be = mod.step(x)
                x2, x1 = x1, x
                x = M.getOptimalValues()[0][:, 0].copy()
                if not (np.all(x >= -1e-12) and np.all(x <= 1 + 1e-12) and np.all(np.abs(x - x1) <= mv + 1e-12) and np.all(x >= al - 1e-12) and np.all(x <= be + 1e-12)):
                    raise CheckFail('iteration %d leaves the bounds, the move limit or the asymptotes' % it)
                M.registerMMAIter(x[:, None], x1[:, None], x2[:, None])
                mod.register(x1, x2)
            if not ref.close(np.asarray(out).reshape(-1), x, 1e-7, 1e-8):
                raise CheckFail('the returned design differs from the reference loop: %s' % ref.diff(np.asarray(out).reshape(-1), x))
            return list(x[:3])
        ctx.case(['loop', its, m, mv, typ], f, nontrivial=its > 0)


def convex(job, ctx, mma):
    """min sum w (x - t)^2 subject to a.x <= b on [0, 1]^n: optimum by bisection on the multiplier."""
    for i in range(job['part'][0], job['n'], job['part'][1]):
        def f():
            flex = list(range([2, 4, 6][i % 3]))
            fe, _, _ = make_fe('QUAD4', [3, 2], flex)
            n = len(flex)
            w = 1. + .8 * np.sin(i + np.arange(n))
            t = .6 + .7 * np.cos(.4 * i + 1.3 * np.arange(n))
            a = np.abs(np.cos(i * .7 + np.arange(n))) + .2
            b = [.15, .35, 2.][i // 3 % 3] * a.sum()

            def at(l):
                return np.clip(t - l * a / (2. * w), 0., 1.)
            lo, hi = 0., 1e4
            if a @ at(0.) <= b:
                star = at(0.)
            else:
                for _ in range(200):
                    mid = .5 * (lo + hi)
                    lo, hi = (mid, hi) if a @ at(mid) > b else (lo, mid)
                star = at(hi)
            old = flags(mma, False, False)
            try:
                out = mma.optimize(fe, np.full((n, 1), [.1, .5, .9][i // 9 % 3]), {'movelimit': [.1, .3][i % 2], 'maxIters': 60},
                                   lambda r: (float((w * (np.asarray(r)[:, 0] - t) ** 2).sum()), (2. * w * (np.asarray(r)[:, 0] - t))[:, None]),
                                   lambda r, it: (np.array([a @ np.asarray(r)[:, 0] - b]), a[None, :, None]), 1)
            finally:
                flags(mma, *old)
            x = np.asarray(out)[:, 0]
            fx, fs = (w * (x - t) ** 2).sum(), (w * (star - t) ** 2).sum()
            if not (a @ x - b <= 1e-4 and fx - fs <= 2e-3 * (1 + abs(fs))):
                raise CheckFail('after 60 iterations objective %g (optimum %g), constraint %g' % (fx, fs, a @ x - b))
            return [fx, fs, a @ x - b]
        ctx.case(['convex', i], f)
