"""C36: residual, tangent, solutions and gradients do not depend on the units of length, field and force (metamorphic: every axis, variable and balance scaled)."""
import itertools
import numpy as np
from mc import ref, meshes, models
from mc.checks import c08
from mc.checks.c05 import dense
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (layout, units, evaluation): the discrete problem written in other units of length (per axis), field (per variable) and force (per balance) is evaluated or solved by the real code and compared, '
        'after conversion, with the same problem in unit scales; non-trivial: the units differ from 1 (an iterative solver may refuse if the force unit exceeds 1)')
BOUND = {'quick': '9 layouts (all element types) x 7 length units (2 with a different unit per axis) x 3 field units x 3 force units; 5 linear solver settings, line search, reduction matrix, relaxation and gradients for 3 layouts; meshes of 5 generators in 7 units',
         'thorough': '10 layouts x 9 x 5 x 5; all solver settings, relaxation and gradients for 6 layouts; meshes in 9 units'}
ASSUMPTIONS = ['user tolerances are given in the units of the problem', 'force unit over field unit between 1e-5 and 1e12, so that rounding in the Dirichlet rows stays below the tolerance']

LAY = {'tri3': ['TRI3'], 'tri6': ['TRI6'], 'quad4': ['QUAD4'], 'quad8': ['QUAD8'], 'tet4': ['TET4'], 'tet10': ['TET10'], 'hex8': ['HEX8'], 'hex20': ['HEX20'],
       'mixed': ['QUAD8', 'QUAD4'], 'hex27': ['HEX27']}
VEC = {'tri3': [2], 'tri6': [1], 'quad4': [2], 'quad8': [2], 'tet4': [3], 'tet10': [1], 'hex8': [3], 'hex20': [1], 'mixed': [2, 1], 'hex27': [1]}
LEN = [[1e-9], [1e-6], [1e-3], [1e3], [1e6], [1., 1e-5, 1e2], [1e4, 1e-3, 1e-6], [1e-12], [1e3, 1., 1e9]]
FLD = [1., 1e-13, 1e5, 1e-9, 1e9]
FRC = [1., 1e-5, 1e11, 1e-2, 1e6]  # over the field unit
WIDE = [1., 1e-17, 1e20, 1e-9, 1e-5]  # nothing is solved
MIX = {1e-9: 1e-6, 1e5: 1e2, 1e-13: 1e-11, 1e9: 1e8, 1.: 1e2}  # unit of the second variable
SOLVE = [{'spsolve_solver': {}}, {'petsc_solver': {'ksp_type': 'bcgsl', 'pc_type': 'jacobi'}}, {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}, {'jax_solver': {}}, {'spsolve_solver': {}, 'line_search_flag': True}]


def jobs(tier, seed):
    q = tier == 'quick'
    lays = [k for k in LAY if not q or k != 'hex27']
    ls = range(7 if q else 9)
    js = [dict(kind='assembly', lay=k, L=list(ls), n=3 if q else 5) for k in lays]
    some = ['quad4', 'mixed', 'tet4'] + ([] if q else ['tri6', 'hex8', 'quad8'])
    for k in some:
        for part in range(5):
            js.append(dict(kind='solve', lay=k, L=list(ls), n=3 if q else 5, opt=part))
        js.append(dict(kind='relax', lay=k, L=list(ls), n=3 if q else 5))
        js.append(dict(kind='reduce', lay=k, L=list(ls), n=3 if q else 5))
        js.append(dict(kind='grad', lay=k, L=list(ls), n=3 if q else 5))
    js += [dict(kind='mesh', L=list(range(5 if q else 5)))]
    for j in js:
        j['pairs'] = q and (j['kind'], j.get('lay')) not in (('assembly', 'quad4'), ('assembly', 'mixed'))
    js.sort(key=lambda j: -{'solve': 3, 'relax': 4, 'grad': 5, 'reduce': 3, 'assembly': 1, 'mesh': 0}[j['kind']])
    return js


def run(job, ctx):
    import jax_fem.solver  # double precision before the first array
    globals()[job['kind']](job, ctx)


# ---------------------------------------------------------------- the same problem in other units
# ivs = [scalar, vector, units]; units[..., :] = (L per axis, factor of the measure, field unit per variable, force unit per variable)
def _split(ivs, d, nv):
    s = ivs[2]
    return s[..., :d], s[..., d], [s[..., d + 1 + i] for i in range(nv)], [s[..., d + 1 + nv + i] for i in range(nv)]


def t_unit(xp, g, ivs):
    d = g.shape[-1]
    L, m, U, F = _split(ivs, d, 1)
    f = models.t_nl(xp, g * L[..., None, :] / U[0][..., None, None], ivs[:2])
    return f * L[..., None, :] * (F[0] / m)[..., None, None]


def m_unit(xp, u, x, ivs):
    L, m, U, F = _split(ivs, x.shape[-1], 1)
    return models.m_nl(xp, u / U[0][..., None], x / L, ivs[:2]) * (F[0] / m)[..., None]


def s_unit(xp, u, x, ivs):
    L, m, U, F = _split(ivs, x.shape[-1], 1)
    return models.s_nl(xp, u / U[0][..., None], x / L, ivs[:2]) * (F[0] / m)[..., None]


def u_unit(xp, us, gs, x, ivs):
    L, m, U, F = _split(ivs, x.shape[-1], len(us))
    out = models.u_nl(xp, [u / a[..., None] for u, a in zip(us, U)], [g * L[..., None, :] / a[..., None, None] for g, a in zip(gs, U)], x / L, ivs[:2])
    return [(f * L[..., None, :] * (b / m)[..., None, None], s * (b / m)[..., None]) for (f, s), b in zip(out, F)]


def q_unit(xp, us, gs, x, ivs):
    L, m, U, F = _split(ivs, x.shape[-1], len(us))
    out = models.q_nl(xp, [u / a[..., None] for u, a in zip(us, U)], [g * L[..., None, :] / a[..., None, None] for g, a in zip(gs, U)], x / L, ivs[:2])
    return [s * (b / m)[..., None] for s, b in zip(out, F)]


models.FN['unit'], models.MN['unit'], models.SN['unit'], models.UN['unit'], models.QN['unit'] = t_unit, m_unit, s_unit, u_unit, q_unit
FACES = ['x+', 'y-']
_CLS = []


class World:
    def __init__(self, lay, L, U, F):
        import jax.numpy as jnp
        eles, vecs = LAY[lay], VEC[lay]
        d = ref.ELE[eles[0]]['dim']
        self.d, self.vecs, self.lay = d, vecs, lay
        self.L = np.array((list(L) * d)[:d] if len(L) == 1 else list(L)[:d])
        self.U, self.F = np.array(U[:len(vecs)]), np.array(F[:len(vecs)])
        base = [meshes.mesh(e, [2, 1] if d == 2 else [1, 1, 1]) for e in eles]
        base = [(p * np.array([1.2, .9, 1.1])[:d] + np.array([.3, -.4, .2])[:d], c) for p, c in base]
        mm = [(p * self.L, c) for p, c in base]
        one = len(eles) == 1
        form = dict(eles=eles, vecs=vecs, T='unit' if one else None, M='unit' if one else None, U=None if one else 'unit',
                    surf=[[f, 'unit' if one else None, None if one else 'unit'] for f in FACES], iv=0)
        if not _CLS:
            _CLS.append(models.make_problem_class())
        Lj = jnp.asarray(self.L)
        loc = [(lambda g: lambda p: g(p / Lj))(models.face_fn(f, base[0][0])) for f in FACES]
        self.p = models.build(_CLS[0], form, mm, location_fns=loc)
        last = len(eles) - 1
        spec = [(0, 0, 0, .3), (0, 1, vecs[0] - 1, -.1)] + ([(last, 0, 0, .1)] if last else [])
        nb = c08.node_bc(base, vecs, spec)
        off = np.concatenate([[0], np.cumsum([len(m[0]) * v for m, v in zip(mm, vecs)])]).astype(int)
        self.var = np.repeat(np.arange(len(vecs)), np.diff(off))
        self.u = self.U[self.var]
        self.f = self.F[self.var]
        self.bc = np.unique(np.concatenate([np.asarray(a) for a, _ in nb[1]]))
        nb = ([(n, c, [np.asarray(w) * self.U[i] for w in v]) for i, (n, c, v) in enumerate(nb[0])], nb[1])
        c08.put_bc(self.p, nb)
        self.n = len(self.var)
        x = np.asarray(self.p.physical_quad_points)
        det = np.prod(self.L)
        self.iv = models.iv_fields(2, x / self.L) + [self.units(x, det)]
        self.siv = [models.iv_fields(2, np.asarray(y) / self.L, 1. + k) + [self.units(np.asarray(y), det / self.L['xyz'.index(f[0])])]
                    for k, (y, f) in enumerate(zip(self.p.physical_surface_quad_points, FACES))]
        self.p.internal_vars = models.jx(self.iv)
        self.p.internal_vars_surfaces = [models.jx(s) for s in self.siv]
        self.nq = int(np.prod(x.shape[:2])), [int(np.prod(np.asarray(y).shape[:2])) for y in self.p.physical_surface_quad_points]

    def units(self, x, m):
        return np.broadcast_to(np.concatenate([self.L, [m], self.U, self.F]), x.shape[:2] + (self.d + 1 + 2 * len(self.U),)).copy()

    def opts(self, o, rel=False):
        o = dict(o)
        o.update(dict(tol=1e-300, rel_tol=1e-9) if rel else dict(tol=1e-9 * float(self.F.min()), rel_tol=1e-30))
        return o

    def cols(self, a):
        """vector of field values in unit scales"""
        return a / self.u


_base = {}


def base(lay):
    if lay not in _base:
        _base[lay] = World(lay, [1.], [1., 1.], [1., 1.])
    return _base[lay]


def grid(job, direct=True):
    """(key, L, U, F): both variables share the units unless direct"""
    mixed = LAY[job['lay']].__len__() > 1
    for (a, l), (b, u), (c, f) in itertools.product(enumerate(job['L']), enumerate(FLD[:job['n']]), enumerate((WIDE if job['kind'] == 'assembly' else FRC)[:job['n']])):
        if job.get('pairs') and (a + b + c) % job['n']:  # every pair of units once
            continue
        U, F = [u, u], [u * f, u * f]
        if mixed and direct:
            U, F = [u, MIX[u]], [u * f, u * f * 1e-2]
        yield [LEN[l], u, f], LEN[l], U, F


def near(got, want, tol, what):
    if not ref.close(got, want, tol, tol):
        raise CheckFail('%s in other units: %s' % (what, ref.diff(got, want)))


def states(n):
    return models.state(n, 1)


def evaluate(w, v):
    import jax.numpy as jnp
    from jax_fem.solver import get_A
    u = v * w.u
    R = models.flat(w.p.newton_update([jnp.asarray(s) for s in models.split_list(w.p, u)])) / w.f
    A = dense(get_A(w.p))
    rows = A[w.bc]
    A = A * w.u[None] / w.f[:, None]
    A[w.bc] = rows
    return R, A


def assembly(job, ctx):
    b = base(job['lay'])
    v = states(b.n)
    want = evaluate(b, v)
    for key, L, U, F in grid(job):
        def one():
            w = World(job['lay'], L, U, F)
            R, A = evaluate(w, v)
            near(R, want[0], 1e-10, 'residual')
            near(A, want[1], 1e-10, 'tangent')
            ctx.add(states=1, transitions=2)
            return 'residual %.4g, tangent %.4g' % (np.abs(R).max(), np.abs(A).max())
        ctx.case(['assembly', job['lay']] + key, one)


def answer(w, o, rel=False):
    from jax_fem.solver import solver
    return models.flat(solver(w.p, w.opts(o, rel)))


_ans = {}


def star(lay):
    """solution in unit scales, checked to be one"""
    if lay not in _ans:
        b = base(lay)
        u = answer(b, {'spsolve_solver': {}})
        R, _ = evaluate(b, u)
        R[b.bc] = 0.
        assert np.abs(R).max() < 1e-8 and np.abs(u).max() > .05, 'unit problem not solved'
        _ans[lay] = u
    return _ans[lay]


def solve(job, ctx):
    o = SOLVE[job['opt']]
    want = star(job['lay'])
    for key, L, U, F in grid(job, 'spsolve_solver' in o):
        def one():
            w = World(job['lay'], L, U, F)
            try:
                got = w.cols(answer(w, o))
            except AssertionError as e:
                if max(F) <= 1. or 'spsolve_solver' in o:
                    raise CheckFail('solver refuses a problem it solves in unit scales: %s' % e)
                return None  # the iterative solvers bound the residual absolutely and say so
            near(got, want, 1e-6, 'solution')
            if 'spsolve_solver' in o and len(w.U) == 1 and w.U[0] == w.F[0]:  # the initial residual is the same mixture of balances and conditions
                got = w.cols(answer(w, o, True))
                near(got, want, 1e-6, 'solution by the relative criterion')
                R, R0 = evaluate(w, got)[0], evaluate(w, 0. * got)[0]
                R[w.bc], R0[w.bc] = got[w.bc] - want[w.bc], want[w.bc]
                if not np.linalg.norm(R) <= 1.01e-9 * np.linalg.norm(R0):
                    raise CheckFail('residual reduced by %.3g, rel_tol 1e-9' % (np.linalg.norm(R) / np.linalg.norm(R0)))
            ctx.add(states=1, transitions=1)
            return 'solution %.4g' % np.linalg.norm(got)
        ctx.case(['solve', job['lay'], job['opt']] + key, one)


def reduce(job, ctx):
    """the last two free dofs of the first variable follow earlier ones"""
    import scipy.sparse as sp

    def put(w):
        free = [i for i in range(w.n) if i not in set(w.bc.tolist()) and w.var[i] == 0]
        s1, s2, m1, m2, m3 = free[-1], free[-2], free[0], free[1], free[2]
        keep = [i for i in range(w.n) if i not in (s1, s2)]
        P = sp.lil_array((w.n, len(keep)))
        for j, i in enumerate(keep):
            P[i, j] = 1.
        for i, c in ((m1, 1.),):
            P[s1, keep.index(i)] = c
        for i, c in ((m2, .7), (m3, .3)):
            P[s2, keep.index(i)] = c
        w.p.P_mat = P.tocsr()
        return w
    b = put(World(job['lay'], [1.], [1., 1.], [1., 1.]))
    want = answer(b, {'spsolve_solver': {}})
    for key, L, U, F in grid(job):
        def one():
            w = put(World(job['lay'], L, U, F))
            got = w.cols(answer(w, {'spsolve_solver': {}}))
            near(got, want, 1e-6, 'solution')
            ctx.add(states=1, transitions=1)
            return 'solution %.4g' % np.linalg.norm(got)
        ctx.case(['reduce', job['lay']] + key, one)


def relax(job, ctx):
    from jax_fem.solver import dynamic_relax_solve
    want = star(job['lay'])
    for key, L, U, F in grid(job):
        def one():
            w = World(job['lay'], L, U, F)
            got = w.cols(models.flat(dynamic_relax_solve(w.p, tol=1e-8 * float(w.F.min()), info=False, info_force=False)))
            near(got, want, 1e-5, 'equilibrium')
            ctx.add(states=1, transitions=1)
            return 'equilibrium %.4g' % np.linalg.norm(got)
        ctx.case(['relax', job['lay']] + key, one, timeout=120)


def grad(job, ctx):
    """d(weights . solution)/d(internal variables, coordinates) through ad_wrapper"""
    import jax
    import jax.numpy as jnp
    from jax_fem.solver import ad_wrapper

    def compute(w):
        p = w.p

        def set_params(prm):
            p.initialize_geometric_quantities([prm['points']] + [fe.points for fe in p.fes[1:]])
            p.internal_vars = [prm['iv']] + [jnp.asarray(a) for a in w.iv[1:]]
            p.internal_vars_surfaces = [[prm['siv']] + [jnp.asarray(a) for a in w.siv[0][1:]]] + [models.jx(s) for s in w.siv[1:]]
        p.set_params = set_params
        f = ad_wrapper(p, w.opts({'spsolve_solver': {}}), {'spsolve_solver': {}})
        wt = jnp.asarray(np.sin(1. + 1.7 * np.arange(w.n)) * w.u)  # an objective in the units of field squared
        prm = {'iv': jnp.asarray(w.iv[0]), 'siv': jnp.asarray(w.siv[0][0]), 'points': jnp.asarray(p.fes[0].points)}
        J, g = jax.value_and_grad(lambda q: jnp.dot(wt, jnp.concatenate([s.reshape(-1) for s in f(q)])))(prm)
        return J, {k: np.asarray(a) for k, a in g.items()}

    b = World(job['lay'], [1.], [1., 1.], [1., 1.])
    J0, g0 = compute(b)
    for key, L, U, F in grid(dict(job, n=min(job['n'], 3)), False):
        def one():
            w = World(job['lay'], L, U, F)
            J, g = compute(w)
            k = w.U[0] ** 2
            if not abs(float(J) / k - float(J0)) <= 1e-6 * abs(float(J0)) + 1e-9:
                raise CheckFail('objective %.9g, in unit scales %.9g' % (float(J) / k, float(J0)))
            near(g['iv'] / k, g0['iv'], 1e-6, 'gradient with respect to internal variables')
            near(g['siv'] / k, g0['siv'], 1e-6, 'gradient with respect to surface variables')
            if len(set(w.L)) == 1:  # the factor of the surface measure is that of an undistorted face
                near(g['points'] * w.L / k, g0['points'], 1e-6, 'gradient with respect to coordinates')
            ctx.add(states=1, transitions=4)
            return 'gradient %.4g' % np.abs(g0['iv']).max()
        ctx.case(['grad', job['lay']] + key, one)


def mesh(job, ctx):
    from jax_fem import generate_mesh as G
    gens = {'rectangle': lambda s: G.rectangle_mesh(3, 2, 1.2 * s, .9 * s), 'box': lambda s: G.box_mesh(2, 1, 2, 1.2 * s, .9 * s, 1.1 * s)}
    for name, g in gens.items():
        want = g(1.)
        for l in job['L']:
            s = LEN[l][0]

            def one():
                got = g(s)
                near(np.asarray(got.points) / s, np.asarray(want.points), 1e-12, 'points')
                a, b = got.cells_dict, want.cells_dict
                if sorted(a) != sorted(b) or any(not np.array_equal(a[k], b[k]) for k in a):
                    raise CheckFail('cells of %s differ at scale %g' % (name, s))
                ctx.add(states=1, transitions=1)
                return '%d points' % len(got.points)
            ctx.case(['mesh', name, s], one)
