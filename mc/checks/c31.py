"""C31: shipped multi-field, boundary and post-processing examples (Stokes, two-variable elasticity, Robin, nodal stress, error norms).  Their
residuals are polynomials of the nodal values, so a complete set of nodal vectors decides them; meshes, sub-meshes and node orders are enumerated."""
import itertools
import os
import re
import numpy as np
import meshio
from mc import ref, meshes, apps
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('stokes, elastic: one case per mesh and basis vector of the nodal values (affine residuals); robin: one case per mesh and pair of unit vectors (quadratic residual); boundary: one case per sub-mesh; '
        'nodal: one case per element type, mesh and basis vector; norms: one case per element type, exact solution and nodal vector; driver: one case per run of a shipped script; non-trivial: a nodal vector that is not zero or a cell removed')
BOUND = {'quick': 'complete bases on 2-3 meshes per example; all sub-meshes of 16 triangles with at most 3 removed; nodal gradients for 9 element types x 3 meshes; 7 whole runs',
         'thorough': 'complete bases on 5 meshes; all sub-meshes of 16 triangles with at most 5 removed; 16 whole runs'}
ASSUMPTIONS = ['velocity and pressure cells list their corners in the same order (as the shipped meshes do)', 'sub-meshes without corners owned by a single triangle (the example asserts this)']
MESHIO = {'TRI3': 'triangle', 'TET4': 'tetra', 'TET10': 'tetra10', 'HEX8': 'hexahedron', 'HEX20': 'hexahedron20', 'HEX27': 'hexahedron27', 'QUAD4': 'quad', 'QUAD8': 'quad8', 'TRI6': 'triangle6'}
PERMS = list(itertools.permutations(range(3)))
MID = {frozenset((0, 1)): 3, frozenset((1, 2)): 4, frozenset((0, 2)): 5}


def jobs(tier, seed):
    q = tier == 'quick'
    js = [dict(kind='driver', app=a, k=k) for a in ('stokes', 'robin', 'norms') for k in range(2 if q else 4)]
    js += [dict(kind='driver', app='elastic', k=k) for k in range(1 if q else 4)]
    js += [dict(kind='boundary', take=t, part=i) for t in range(4 if q else 6) for i in range(1 if t < 4 else 4)]
    js += [dict(kind='shipped')]
    js += [dict(kind='robin', k=k) for k in range(2 if q else 5)]
    js += [dict(kind='stokes', k=k) for k in range(3 if q else 5)]
    js += [dict(kind='elastic', k=k) for k in range(2 if q else 4)]
    js += [dict(kind='norms', ele=e, k=k) for e in ('HEX8', 'TET4', 'TET10', 'HEX20') for k in range(1 if q else 3)]
    js += [dict(kind='nodal', ele=e, k=k) for e in ref.TYPES for k in range(3 if q else 5)]
    return js


def run(job, ctx):
    globals()[job['kind']](job, ctx)


# ---------------------------------------------------------------- meshes
def tri(k):
    """triangles on the unit square; inner nodes moved"""
    n = [[2, 2], [3, 2], [1, 3], [3, 3], [2, 4]][k]
    p, c = meshes.linear_mesh('TRI3', n)
    inner = np.all((p > 1e-9) & (p < 1 - 1e-9), axis=1)
    return p + np.where(inner[:, None], .07 * np.stack([np.sin(7 * p[:, 0] + k), np.cos(5 * p[:, 1])], 1), 0.), np.array(c)


def quadratic(p, c):
    q, d = meshes.upgrade('TRI6', p, c)
    return q, np.asarray(d)


def turn(c, k, ele='TRI3'):
    """node orders as FEniCS writes them: any of the six, clockwise ones included"""
    out = []
    for i, a in enumerate(c):
        o = PERMS[(5 * i + k) % 6]
        row = [a[j] for j in o]
        if ele == 'TRI6':
            row += [a[MID[frozenset(e)]] for e in ((o[0], o[1]), (o[1], o[2]), (o[2], o[0]))]
        out.append(row)
    return np.array(out)


def box3(ele, k):
    n = [[2, 1, 1], [2, 2, 1], [1, 2, 2], [3, 1, 1], [1, 1, 1]][k]
    p, c = meshes.mesh(ele, n)
    L = p.max(0)
    w = np.prod(p * (L - p), axis=1)
    return p + 1.5 * w[:, None] * np.array([1., -.7, .5]), np.asarray(c)


def basis(ctx, key, n, res, rtol=1e-9):
    for i in range(-2, n):
        def one():
            v = np.zeros(n) if i == -2 else np.sin(1. + np.arange(n)) if i == -1 else np.eye(n)[i]
            got, want = res(v)
            if not ref.close(got, want, rtol, 1e-13 * max(1., np.abs(want).max())):
                raise CheckFail('residual %s' % ref.diff(got, want))
            ctx.add(states=1)
        ctx.case(key + [i], one, nontrivial=i != -2)


def flat(sols):
    return np.concatenate([np.asarray(s).reshape(-1) for s in sols])


# ---------------------------------------------------------------- Stokes
class Stokes:
    def __init__(self, pu, cu, pp, cp):
        self.su, self.sp = ref.Space('TRI6', pu, cu, 2, order=2), ref.Space('TRI3', pp, cp, 1, order=2)

        def vol(xp, us, gs, x, ivs):
            I = np.eye(2)
            return [(gs[0] + us[1][..., None] * I, None), (None, np.trace(gs[0], axis1=-2, axis2=-1)[..., None])]
        self.m = ref.RefModel([self.su, self.sp], vol)


def stokes(job, ctx):
    k = job['k']
    ns = apps.script(ctx, 'stokes')
    p, c = tri(k)
    pu, cu = quadratic(p, c)
    # the pressure mesh has its own node numbers
    o = np.argsort(np.cos(3. * np.arange(len(p)) + k))
    inv = np.argsort(o)
    pp, cp = p[o], inv[c]
    cu, cp = turn(cu, k, 'TRI6'), turn(cp, k)
    T = ns['transform_cells']
    prob = ns['StokesFlow']([ns['Mesh'](pu, T(cu, pu, 'TRI6')), ns['Mesh'](pp, T(cp, pp, 'TRI3'))], vec=[2, 1], dim=2, ele_type=['TRI6', 'TRI3'], quadrature_order=[2, 2])
    cu_, cp_ = quadratic(p, c)[1], inv[c]
    R = Stokes(pu, cu_, pp, cp_)
    n = R.m.n

    def res(v):
        return flat(prob.compute_residual([a for a in R.m.split(v)])), R.m.residual(v)
    basis(ctx, ['stokes', k], n, res)


def union_jack():
    """2 x 2 squares of four triangles each: every corner of the full mesh belongs to two triangles"""
    g = [(i / 2., j / 2.) for i in range(3) for j in range(3)]
    c = []
    for i in range(2):
        for j in range(2):
            a = [3 * i + j, 3 * (i + 1) + j, 3 * (i + 1) + j + 1, 3 * i + j + 1]
            m = len(g)
            g.append((i / 2. + .25 + .03 * i, j / 2. + .25 - .02 * j))
            c += [[a[0], a[1], m], [a[1], a[2], m], [a[2], a[3], m], [a[3], a[0], m]]
    return np.array(g), np.array(c)


def boundary(job, ctx):
    ns = apps.script(ctx, 'stokes')
    p, c = union_jack()
    pu, cu = quadratic(p, c)
    ms = [ns['Mesh'](pu, cu), ns['Mesh'](p, c)]
    prob = ns['StokesFlow'](ms, vec=[2, 1], dim=2, ele_type=['TRI6', 'TRI3'], quadrature_order=[2, 2])
    words = list(itertools.combinations(range(len(c)), job['take']))
    parts = max(1, 4 * (job['take'] >= 4))
    for rem in words[job['part']::parts]:
        keep = [i for i in range(len(c)) if i not in rem]
        sub = turn(cu, len(rem), 'TRI6')[keep]
        sub = np.asarray(ns['transform_cells'](sub, pu, 'TRI6'))
        v, cnt = np.unique(cu[keep][:, :3], return_counts=True)
        if (cnt == 1).any():
            continue

        def one():
            fe = prob.fes[0]
            fe.cells, fe.points = sub, pu
            before = [np.array([0, 1])], [np.array([1, 1])], [np.array([.5, .25])]
            fe.node_inds_list, fe.vec_inds_list, fe.vals_list = [list(b) for b in before]
            prob.configure_Dirichlet_BC_for_dolphin()
            edges = {}
            for a in cu[keep]:
                for (i, j), m in zip(((0, 1), (1, 2), (2, 0)), (3, 4, 5)):
                    edges.setdefault(int(a[m]), []).append((int(a[i]), int(a[j])))
            want = set()
            for m, e in edges.items():
                if len(e) == 1:
                    want |= {m, *e[0]}
            want = sorted(n for n in want if 1e-5 < pu[n, 0] < 1 - 1e-5)
            if len(fe.node_inds_list) != 3 or len(fe.vec_inds_list) != 3 or len(fe.vals_list) != 3:
                raise CheckFail('%d node lists instead of 3' % len(fe.node_inds_list))
            for l, b in zip((fe.node_inds_list, fe.vec_inds_list, fe.vals_list), before):
                if not np.array_equal(l[0], b[0]):
                    raise CheckFail('the earlier condition was changed')
            got = {}
            for comp, (nl, vl, val) in enumerate(zip(fe.node_inds_list[1:], fe.vec_inds_list[1:], fe.vals_list[1:])):
                nl, vl, val = np.asarray(nl), np.asarray(vl), np.asarray(val)
                if not (nl.shape == vl.shape == val.shape) or np.any(val != 0):
                    raise CheckFail('lists of different lengths or values that are not zero')
                for a, b in zip(nl.tolist(), vl.tolist()):
                    got.setdefault(b, []).append(a)
            for comp in (0, 1):
                if sorted(got.get(comp, [])) != want:
                    raise CheckFail('component %d: nodes %s, expected %s' % (comp, sorted(got.get(comp, [])), want))
            ctx.add(states=1)
            return '%d nodes' % len(want)
        ctx.case(['boundary', list(rem)], one, nontrivial=len(rem) > 0)


def shipped(job, ctx):
    """the dolphin mesh that comes with the example"""
    def one():
        from mc.core import REPO
        d = os.path.join(REPO, 'applications', 'stokes', 'input', 'numpy')
        pu, cu, pp, cp = [np.load(os.path.join(d, f + '.npy')) for f in ('points_u', 'cells_u', 'points_p', 'cells_p')]
        ns = apps.script(ctx, 'stokes')
        T = ns['transform_cells']
        du, dp = np.asarray(T(cu, pu, 'TRI6')), np.asarray(T(cp, pp, 'TRI3'))
        prob = ns['StokesFlow']([ns['Mesh'](pu, du), ns['Mesh'](pp, dp)], vec=[2, 1], dim=2, ele_type=['TRI6', 'TRI3'], quadrature_order=[2, 2])
        W = np.asarray(prob.fes[0].JxW)
        if not (W > 0).all():
            raise CheckFail('%d quadrature weights are not positive' % (W <= 0).sum())
        prob.configure_Dirichlet_BC_for_dolphin()
        e = {}
        for a in cu:
            # middle nodes are found by position, whatever the order of the file
            for i, j in ((0, 1), (1, 2), (2, 0)):
                x = (pu[a[i]] + pu[a[j]]) / 2
                m = a[3:][np.abs(pu[a[3:]] - x).max(1).argmin()]
                e.setdefault(int(m), []).append((int(a[i]), int(a[j])))
        want = sorted({n for m, l in e.items() if len(l) == 1 for n in (m, *l[0]) if 1e-5 < pu[n, 0] < 1 - 1e-5})
        for comp in (0, 1):
            if sorted(np.asarray(prob.fes[0].node_inds_list[comp]).tolist()) != want:
                raise CheckFail('the wall of the shipped mesh is not selected')
        ctx.add(states=1)
        return '%d wall nodes, area %.9g' % (len(want), W.sum())
    ctx.case(['shipped'], one, timeout=180)


# ---------------------------------------------------------------- one and two variables
def hooke(g):
    E, nu = 70e3, .3
    mu, lam = E / (2 * (1 + nu)), E * nu / ((1 + nu) * (1 - 2 * nu))
    return lam * np.trace(g, axis1=-2, axis2=-1)[..., None, None] * np.eye(3) + mu * (g + np.swapaxes(g, -1, -2))


def elastic(job, ctx):
    k = job['k']
    ele = ['HEX8', 'HEX8', 'TET4', 'TET10'][k]
    p, c = box3(ele, k)
    c = meshes.rotate_cells(ele, c, [0, 3, 5])
    R = ref.RefModel([ref.Space(ele, p, c, 3)], lambda xp, us, gs, x, ivs: [(hooke(gs[0]), None)])
    a = apps.script(ctx, 'stokes', 'example_1var')
    b = apps.script(ctx, 'stokes', 'example_2vars')
    m = a['Mesh'](p, c)
    one = a['LinearElasticity'](m, vec=3, dim=3, ele_type=ele)
    two = b['LinearElasticity']([b['Mesh'](p, c)] * 2, vec=[1, 2], dim=3, ele_type=[ele] * 2, quadrature_order=[None, None])
    n = len(p)

    def res(v):
        u = v.reshape(n, 3)
        r1 = np.asarray(one.compute_residual([u])[0])
        r2 = [np.asarray(x) for x in two.compute_residual([u[:, :1], u[:, 1:]])]
        want = R.residual(v)
        return np.concatenate([r1.reshape(-1), np.concatenate(r2, 1).reshape(-1)]), np.concatenate([want, want])
    basis(ctx, ['elastic', k], 3 * n, res)


# ---------------------------------------------------------------- Robin
class Robin:
    def __init__(self, p, c):
        s = ref.Space('TRI3', p, c, 1, order=2)

        def vol(xp, us, gs, x, ivs):
            f = x[..., 0] * np.sin(5 * np.pi * x[..., 1]) + np.exp(-((x[..., 0] - .5) ** 2 + (x[..., 1] - .5) ** 2) / .02)
            return [(gs[0], -f[..., None])]
        side = lambda v: [(a, f) for a, f in ref.all_faces('TRI3', c) if all(abs(p[i, 0] - v) < 1e-5 for i in ref.face_vertices('TRI3', c, a, f))]
        fn = lambda xp, us, gs, x, ivs: [5 * us[0] ** 2]
        self.m = ref.RefModel([s], vol, [(side(0.), fn), (side(1.), fn)])
        assert self.m.surfaces[0][0] and self.m.surfaces[1][0]
        self.bc = [(np.where(np.abs(p[:, 1] - v) < 1e-5)[0], np.ones(int((np.abs(p[:, 1] - v) < 1e-5).sum()))) for v in (0., 1.)]


def robin(job, ctx):
    k = job['k']
    ns = apps.script(ctx, 'robin_bc', packages=['stokes'])
    p, c = tri(k)
    P = ns['np']
    prob = ns['Poisson'](ns['Mesh'](p, ns['transform_cells'](turn(c, k), p, 'TRI3')), 1, 2, 'TRI3', quadrature_order=2,
                         location_fns=[lambda x: P.isclose(x[0], 0., atol=1e-5), lambda x: P.isclose(x[0], 1., atol=1e-5)])
    R = Robin(p, c)
    n = len(p)
    words = [()] + [(i,) for i in range(n)] + list(itertools.combinations(range(n), 2)) + [(-1,)]
    for w in words:
        def one():
            u = np.zeros(n)
            for i in w:
                u[i] = 1.
            if w == (-1,):
                u = 2. * np.cos(1. + np.arange(n))
            got, want = flat(prob.compute_residual([u[:, None]])), R.m.residual(u)
            if not ref.close(got, want, 1e-10, 1e-12):
                raise CheckFail('residual %s' % ref.diff(got, want))
            ctx.add(states=1)
        ctx.case(['robin', k, list(w)], one, nontrivial=len(w) > 0)


# ---------------------------------------------------------------- gradients at the nodes
def nodal(job, ctx):
    ele, k = job['ele'], job['k']
    ns = apps.script(ctx, 'nodal_stress')
    dim = ref.ELE[ele]['dim']
    p, c = [lambda: meshes.single(ele), lambda: meshes.mesh(ele, [2, 1, 1][:dim]), lambda: meshes.mesh(ele, [1, 1, 1][:dim]), lambda: meshes.mesh(ele, [1, 2, 1][:dim]), lambda: meshes.mesh(ele, [2, 2, 1][:dim])][k]()
    p = meshes.affine(p, k % 2)
    if k >= 1:
        p = meshes.curved(p)
    nrot = len(ref.rotations(ele))
    c = meshes.rotate_cells(ele, c, [k % nrot, (2 * k + 1) % nrot])

    class Laplace(ns['Problem']):
        def get_tensor_map(self):
            return lambda g: g
    prob = Laplace(ns['Mesh'](p, c, ele_type=ele), vec=1, dim=dim, ele_type=ele)
    got = []

    def shape_():
        G = np.asarray(ns['get_shape_grads_physical'](prob))
        if G.shape != (len(c), c.shape[1], c.shape[1], dim):
            raise CheckFail('shape %s' % (G.shape,))
        got.append(G)
    ctx.case([ele, k, 'shape'], shape_, nontrivial=False)
    if not got:
        return
    d = ref.dshape(ele, ref.ELE[ele]['nodes'])
    J = np.einsum('cni,qnj->cqij', p[c], d)
    assert np.abs(np.linalg.det(J)).min() > 1e-8
    want = np.einsum('qnj,cqji->cqni', d, np.linalg.inv(J))
    for i in range(len(p)):
        def one():
            u = (c == i).astype(float)
            a, b = np.einsum('cn,cqnd->cqd', u, got[0]), np.einsum('cn,cqnd->cqd', u, want)
            if not ref.close(a, b, 1e-8, 1e-9):
                raise CheckFail('gradient at the nodes of the field that is 1 at node %d: %s' % (i, ref.diff(a, b)))
            ctx.add(states=1)
        ctx.case([ele, k, i], one)
    if k == 0:
        def linear():
            for j in range(dim):
                g = np.einsum('cn,cqnd->cqd', p[c][:, :, j], got[0])
                if not ref.close(g, np.broadcast_to(np.eye(dim)[j], g.shape), 1e-9, 1e-9):
                    raise CheckFail('coordinate %d has gradient %s' % (j, g[0]))
        ctx.case([ele, k, 'linear'], linear)


# ---------------------------------------------------------------- error norms
def norms(job, ctx):
    import jax.numpy as jnp
    ele, k = job['ele'], job['k']
    ns = apps.script(ctx, 'convergence_rate')
    p, c = box3(ele, k)
    prob = ns['LinearPoisson'](ns['Mesh'](p, c, ele_type=ele), vec=1, dim=3, ele_type=ele)
    s = ref.Space(ele, p, c, 1)
    g = s.geometry()
    true = {'zero': (lambda x: jnp.array([0. * x[0]]), lambda x: 0. * x[..., 0], lambda x: 0. * x),
            'cubic': (lambda x: jnp.array([x[0] ** 3 - x[1] * x[2] + .2]), lambda x: x[..., 0] ** 3 - x[..., 1] * x[..., 2] + .2,
                      lambda x: np.stack([3 * x[..., 0] ** 2, -x[..., 2], -x[..., 1]], -1)),
            'shipped': (ns['true_u_fn'], exact, dexact)}
    for name, (f, v, dv) in true.items():
        for i in range(-2, len(p)):
            def one():
                u = np.zeros(len(p)) if i == -2 else np.sin(1. + np.arange(len(p))) if i == -1 else np.eye(len(p))[i]
                l2, h1 = refnorms(s, g, u, v, dv)
                a, b = float(prob.compute_l2_norm_error(u[:, None], f)), float(prob.compute_h1_norm_error(u[:, None], f))
                if not (abs(a - l2) <= 1e-9 * (1e-9 + l2) and abs(b - l2 - h1) <= 1e-9 * (1e-9 + l2 + h1)):
                    raise CheckFail('l2 %g, expected %g; h1 %g, expected %g' % (a, l2, b, l2 + h1))
                ctx.add(states=1)
            ctx.case([ele, k, name, i], one, nontrivial=i != -2 or name != 'zero')


def refnorms(s, g, u, v, dv):
    l2 = np.sqrt(np.sum((np.einsum('qn,cn->cq', s.N, u[s.cells]) - v(g['x'])) ** 2 * g['W']))
    h1 = np.sqrt(np.sum((np.einsum('cqnd,cn->cqd', g['G'], u[s.cells]) - dv(g['x'])) ** 2 * g['W'][..., None]))
    return l2, h1


def exact(x):
    return 1e2 * ((x[..., 0] - .5) ** 3 + 2 * (x[..., 1] - .5) ** 3 + 10 * np.exp(-(x[..., 2] - .5) ** 2))


def dexact(x):
    return 1e2 * np.stack([3 * (x[..., 0] - .5) ** 2, 6 * (x[..., 1] - .5) ** 2, -20 * (x[..., 2] - .5) * np.exp(-(x[..., 2] - .5) ** 2)], -1)


def lapl(x):
    return 1e2 * (6 * (x[..., 0] - .5) + 12 * (x[..., 1] - .5) + 10 * (4 * (x[..., 2] - .5) ** 2 - 2) * np.exp(-(x[..., 2] - .5) ** 2))


# ---------------------------------------------------------------- whole runs
def record(log, opts=None):
    def solver(f):
        def g(problem, solver_options={}, *a, **kw):
            out = f(problem, opts if opts is not None else solver_options, *a, **kw)
            log.append((problem, [np.array(x) for x in out]))
            return out
        return g
    return solver


def saver(log):
    def wrap(f):
        def g(fe, sol, path, *a, **kw):
            os.makedirs(os.path.dirname(path), exist_ok=True)
            f(fe, sol, path, *a, **kw)
            log.append((path, np.array(sol), meshio.read(path)))
        return g
    return wrap


def put(**arrays):
    def files(d):
        os.makedirs(os.path.join(d, 'input', 'numpy'), exist_ok=True)
        for k, v in arrays.items():
            np.save(os.path.join(d, 'input', 'numpy', k + '.npy'), v)
    return files


def linsolve(R, bc):
    n = R.n
    r0 = R.residual(np.zeros(n))
    A = np.stack([R.residual(e) - r0 for e in np.eye(n)], 1)
    b = -r0
    for d, v in R.bc_map(bc).items():
        A[d] = 0
        A[d, d] = 1
        b[d] = v
    return np.linalg.solve(A, b)


def holed():
    """union jack with 4 x 4 squares around a hole"""
    n = 4
    g = [(i / n, j / n) for i in range(n + 1) for j in range(n + 1)]
    c = []
    for i in range(n):
        for j in range(n):
            a = [(n + 1) * i + j, (n + 1) * (i + 1) + j, (n + 1) * (i + 1) + j + 1, (n + 1) * i + j + 1]
            m = len(g)
            g.append((i / n + .125 + .01 * i, j / n + .125 - .015 * j))
            if (i, j) == (1, 2):
                c += [[a[0], a[1], m], [a[3], a[0], m]]
                continue
            c += [[a[0], a[1], m], [a[1], a[2], m], [a[2], a[3], m], [a[3], a[0], m]]
    return np.array(g), np.array(c)


def driver(job, ctx):
    globals()['drive_' + job['app']](job['k'], ctx)


def drive_stokes(k, ctx):
    def one():
        if k == 0:
            p, c = union_jack()
        elif k == 1:
            p, c = holed()
        else:
            p, c = union_jack()
            p = p + .3 * np.array([0., 1.]) * (p * (1 - p))[:, :1] * (k - 1)
            c = c[:, [1, 2, 0]]
        pu, cu = quadratic(p, c)
        log, saves = [], []
        ns = apps.script(ctx, 'stokes', whole=True, files=put(points_u=pu, cells_u=turn(cu, k, 'TRI6'), points_p=p, cells_p=turn(c, k)),
                         patch=dict(solver=record(log, {'spsolve_solver': {}}), save_sol=saver(saves)))
        (prob, (u, q)), = log
        R = Stokes(pu, cu, p, c)
        edge = {}
        for a in cu:
            for (i, j), m in zip(((0, 1), (1, 2), (2, 0)), (3, 4, 5)):
                edge.setdefault(a[m], []).append((a[i], a[j]))
        wall = sorted({int(n) for m, e in edge.items() if len(e) == 1 for n in (m, *e[0]) if 1e-5 < pu[n, 0] < 1 - 1e-5})
        rgt = np.where(np.abs(pu[:, 0] - 1) < 1e-5)[0]
        lft = np.where(np.abs(p[:, 0]) < 1e-5)[0]
        bc = [(2 * rgt, -np.sin(np.pi * pu[rgt, 1])), (2 * rgt + 1, 0. * rgt), (2 * np.array(wall), np.zeros(len(wall))), (2 * np.array(wall) + 1, np.zeros(len(wall))), (2 * len(pu) + lft, 0. * lft)]
        v = linsolve(R.m, bc)
        want = R.m.split(v)
        for a, b, nm in zip((u, q), want, ('velocity', 'pressure')):
            if not ref.close(a, b, 1e-6, 1e-9):
                raise CheckFail('%s %s' % (nm, ref.diff(a, b)))
        if len(saves) != 2:
            raise CheckFail('%d files' % len(saves))
        for path, sol, m in saves:
            w = np.hstack([u, np.zeros((len(u), 1))]) if 'velocity' in path else q
            if not ref.close(np.asarray(m.point_data['sol']).reshape(w.shape), w, 1e-6, 1e-6):
                raise CheckFail('%s does not hold the solution' % os.path.basename(path))
        ctx.add(states=1, traces=1)
        return 'max velocity %.4g' % np.abs(u).max()
    ctx.case(['driver stokes', k], one, timeout=120)


def drive_robin(k, ctx):
    def one():
        p, c = tri([0, 3, 1, 4][k])
        log, saves = [], []
        apps.script(ctx, 'robin_bc', whole=True, packages=['stokes'], files=put(points_u=p, cells_u=turn(c, k)), patch=dict(solver=record(log), save_sol=saver(saves)))
        (prob, (u,)), = log
        R = Robin(p, c)
        r = R.m.imposed(u.reshape(-1), R.bc)
        if not np.linalg.norm(r) < 2e-6:
            raise CheckFail('the solution is no equilibrium: residual %g' % np.linalg.norm(r))
        want = R.m.newton(R.bc, u0=u.reshape(-1))
        if not ref.close(u.reshape(-1), want, 1e-5, 1e-6):
            raise CheckFail('solution %s' % ref.diff(u.reshape(-1), want))
        (path, sol, m), = saves
        if not ref.close(np.asarray(m.point_data['sol']).reshape(-1), u.reshape(-1), 1e-6, 1e-6):
            raise CheckFail('the file does not hold the solution')
        ctx.add(states=1, traces=1)
        return 'u %.4g .. %.4g' % (u.min(), u.max())
    ctx.case(['driver robin', k], one, timeout=120)


def drive_elastic(k, ctx):
    def one():
        p, c = box3('HEX8', k)
        p = p / p.max(0)
        sols = []
        box = lambda f: lambda *a, **kw: meshio.Mesh(p, {'hexahedron': c})
        for name in ('example_1var', 'example_2vars'):
            log = []
            apps.script(ctx, 'stokes', name, whole=True, patch=dict(solver=record(log), box_mesh_gmsh=box, save_sol=saver([])))
            (prob, s), = log
            sols.append(np.concatenate(s, axis=1))
        R = ref.RefModel([ref.Space('HEX8', p, c, 3)], lambda xp, us, gs, x, ivs: [(hooke(gs[0]), None)])
        l, r = np.where(np.abs(p[:, 0]) < 1e-5)[0], np.where(np.abs(p[:, 0] - 1) < 1e-5)[0]
        bc = [(3 * l + i, 0. * l) for i in range(3)] + [(3 * r, .1 + 0. * r), (3 * r + 1, 0. * r), (3 * r + 2, 0. * r)]
        want = linsolve(R, bc).reshape(-1, 3)
        for s, nm in zip(sols, ('one variable', 'two variables')):
            if not ref.close(s, want, 1e-6, 1e-9):
                raise CheckFail('%s: %s' % (nm, ref.diff(s, want)))
        ctx.add(states=2, traces=2)
        return 'max %.4g' % np.abs(sols[0]).max()
    ctx.case(['driver elastic', k], one, timeout=120)


def drive_norms(k, ctx):
    ele = ['TET4', 'TET10', 'HEX8', 'HEX20'][k]

    def one():
        log = []
        ps, cs = box3(ele, [2, 0, 1, 0][k])
        ps = ps / ps.max(0)
        ns = apps.script(ctx, 'convergence_rate', patch=dict(solver=record(log), box_mesh_gmsh=lambda f: lambda *a, **kw: meshio.Mesh(ps, {MESHIO[ele]: cs})))
        l2, h1 = ns['problem'](ele, 2, os.path.join(ctx.scratch, 'out%d' % k))
        (prob, (u,)), = log
        s = ref.Space(ele, ps, cs, 1)
        R = ref.RefModel([s], lambda xp, us, gs, x, ivs: [(gs[0], lapl(x)[..., None])])
        bc = [(np.where(np.abs(ps[:, d] - v) < 1e-5)[0], exact(ps[np.abs(ps[:, d] - v) < 1e-5])) for d in range(3) for v in (0., 1.)]
        want = linsolve(R, bc)
        if not ref.close(u.reshape(-1), want, 1e-7, 1e-7):
            raise CheckFail('solution %s' % ref.diff(u.reshape(-1), want))
        a, b = refnorms(s, s.geometry(), want, exact, dexact)
        if not (abs(float(l2) - a) <= 1e-6 * a and abs(float(h1) - a - b) <= 1e-6 * (a + b)):
            raise CheckFail('norms %g, %g instead of %g, %g' % (l2, h1, a, a + b))
        ctx.add(states=1, traces=1)
        return 'l2 %.4g h1 %.4g' % (l2, h1)
    ctx.case(['driver norms', ele], one, timeout=120)
