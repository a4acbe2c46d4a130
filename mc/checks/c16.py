"""C16: dynamic relaxation.  Space: problems x initial guesses x recomputation settings x tolerances x linear options, and divergent problems."""
import itertools
import numpy as np
from mc import ref, meshes, models, arcprob
from mc.core import CheckFail
from mc.checks import c08
from mc.checks.c05 import dense

LEVEL = 'exploration'
RULE = ('one case per (problem, guess, nKMat, tolerance, linear options): Dirichlet values exact, largest unconstrained reference residual component below the tolerance, '
        'distance to the unique reference equilibrium bounded; non-trivial: the prediction of the first step or the guess is not in equilibrium')
BOUND = {'quick': '5 problems x 4 guesses x 3 recomputation settings x 2 tolerances; 2 problems x 9 linear options; 12 divergent set-ups; histories of 2 solves on one problem',
         'thorough': '8 problems x 5 guesses x 5 recomputation settings x 3 tolerances x 2 Dirichlet sets; all problems x 12 linear options; 24 divergent set-ups; histories of 4 solves'}
ASSUMPTIONS = ['problems of the menu have one equilibrium and a positive stiffness, so relaxation terminates']


def m_stiff(xp, u, x, ivs):
    return models._amp(xp, u + 6. * u ** 3 - (1. + x[..., :1]), ivs, 1)


def m_blow(xp, u, x, ivs):
    return models._amp(xp, -60. * u - 50. * u ** 3 - 3., ivs, 1)


models.MN['stiff'] = m_stiff
models.MN['blow'] = m_blow
# element types, components, T, M, U, surface
PROB = {'scalar': (['QUAD4'], [1], 'lin', 'soft', None, [['x+', 'load', None]]), 'stiff': (['TRI3'], [2], 'lin', 'stiff', None, []),
        'vector': (['QUAD4'], [2], 'nl', 'nl', None, [['all', 'load', None]]), 'coupled': (['QUAD8', 'QUAD4'], [2, 1], None, None, 'nl', [['all', None, 'lin']]),
        'hex': (['HEX8'], [1], 'lin', 'stiff', None, [['z+', 'load', None]]), 'three': (['TRI3', 'TRI3', 'TRI3'], [1, 2, 1], None, None, 'hom', [['all', None, 'load']]),
        'tet': (['TET4'], [3], 'nl', 'soft', None, [['all', 'load', None]]), 'tri6': (['TRI6'], [1], 'nl', 'lin', None, [['all', 'lin', None]])}
GUESS = ['absent', 'irregular', 'exact', 'zero', 'large']
NK = [1000, 0, 3, 1, 20]
TOL = [1e-6, 1e-9, 1e-3]
EASY = ('scalar', 'stiff', 'vector', 'coupled', 'hex')
LIN = [{'spsolve_solver': {}}, {}, {'jax_solver': {}}, {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}, {'custom_solver': 'half'}, {'custom_solver': 'zero'},
       {'custom_solver': 'garbage'}, {'custom_solver': 'negated'}, {'petsc_solver': {}}, {'jax_solver': {'precond': False}}, {'custom_solver': 'nan'}, {'custom_solver': 'exact'}]


def jobs(tier, seed):
    js = []
    q = tier == 'quick'
    for pr in (['scalar', 'stiff', 'vector', 'coupled', 'hex'] if q else list(PROB)):
        for bc in (([0] if pr != 'stiff' else [1]) if q else [0, 1, 2]):
            for g in (GUESS[:4] if q else GUESS):
                js.append(dict(kind='grid', prob=pr, bc=bc, guess=g, nk=NK[:3] if q else NK, tol=TOL[:2] if q else TOL))
    for pr in (['scalar', 'coupled'] if q else list(PROB)):
        for part in (0, 1):
            js.append(dict(kind='linear', prob=pr, lin=list(range(12))[part::2] if not q else [i for i in range(12) if i not in (2, 9, 8)][part::2]))
    js.append(dict(kind='divergent', prob='blow', n=12 if q else 24))
    for pr in (['stiff'] if q else ['stiff', 'coupled', 'hex']):
        js += [dict(kind='history', prob=pr, pre=[a], depth=2 if q else 4) for a in range(4)]
    js.sort(key=lambda j: 0 if j['prob'] == 'coupled' else 1)
    return js


class World:
    def __init__(self, prob, bc=0):
        eles, vecs, T, M, U, surf = PROB[prob] if prob != 'blow' else (['QUAD4'], [2], 'lin', 'blow', None, [])
        dim = ref.ELE[eles[0]]['dim']
        mm = [meshes.mesh(e, [2, 1] if dim == 2 else [1, 1, 1]) for e in eles]
        mm = [(p * np.array([1.2, .9, 1.1])[:dim], c) for p, c in mm]
        self.form = dict(eles=eles, vecs=vecs, T=T, M=M, U=U, surf=surf, iv=1)
        self.mm, self.r = mm, models.reference(self.form, mm)
        last = len(eles) - 1
        specs = [[(0, 0, 0, .3), (0, 1, vecs[0] - 1, -.1), (last, 0, vecs[last] - 1, .1)],
                 [(0, 2, 0, .2), (last, 0, vecs[last] - 1, .1), (0, 0, 0, .05)], []]
        self.specs = specs
        self.nbs = [c08.node_bc(mm, vecs, s) for s in specs]
        self.k, self.nb = bc, self.nbs[bc]
        self.p = models.build(models.make_problem_class(), self.form, mm)
        c08.put_bc(self.p, self.nb)
        self.iv = models.ref_ivs(self.form, self.r)
        self.star = {}

    def setbc(self, k):
        self.k, self.nb = k, self.nbs[k]
        c08.put_bc(self.p, self.nb)

    def exact(self):
        k = self.k
        if k not in self.star:
            self.star[k] = self.r.newton(self.nb[1], *self.iv)
        return self.star[k]

    def verify(self, u, tol):
        m = ref.RefModel.bc_map(self.nb[1])
        if not np.all(np.isfinite(u)):
            raise CheckFail('non-finite state returned')
        d = [(k, u[k], v) for k, v in m.items() if not abs(u[k] - v) <= 1e-12 * max(1., abs(v))]
        if d:
            raise CheckFail('Dirichlet values not satisfied: (dof, value, prescribed) %s' % (d[:3],))
        R = self.r.residual(u, *self.iv)
        R[list(m)] = 0.
        if not np.abs(R).max() <= tol * (1 + 1e-6) + 1e-11:
            raise CheckFail('largest residual component %g, tolerance %g' % (np.abs(R).max(), tol))
        return np.abs(R).max()

    def unique(self, u, tol):
        e = np.abs(u - self.exact()).max()
        if not e <= 200. * tol * max(1., np.abs(self.exact()).max()):
            raise CheckFail('differs from the equilibrium found by Newton by %g (tolerance %g)' % (e, tol))


def solve(w, cfg):
    from jax_fem.solver import solver
    return models.flat(solver(w.p, {'dynamic_relax': dict(cfg, info=False, info_force=False)}))


def run(job, ctx):
    import jax.numpy as jnp
    w = World(job['prob'], job.get('bc', 0))

    def guess(name):
        if name == 'exact':
            return w.exact()
        return {'irregular': models.state(w.r.n, 1), 'zero': np.zeros(w.r.n), 'large': 3. * np.cos(np.arange(w.r.n))}[name]

    def count(fn):
        """number of tangent updates during fn"""
        n = []
        plain = w.p.newton_update

        def nu(s):
            n.append(1)
            return plain(s)
        w.p.newton_update = nu
        try:
            out = fn()
        finally:
            del w.p.newton_update
        return out, len(n)

    if job['kind'] == 'grid':
        for nk, tol in itertools.product(job['nk'], job['tol']):
            def f():
                cfg = dict(tol=tol, nKMat=nk)
                if job['guess'] != 'absent':
                    cfg['initial_guess'] = models.split_list(w.p, guess(job['guess']))
                try:
                    u, n = count(lambda: solve(w, cfg))
                except AssertionError:
                    if job['guess'] == 'exact' or (job['prob'] in EASY and job.get('bc') in (0, 1) and (job['guess'] == 'absent' or job['prob'] in ('scalar', 'coupled')) and job['guess'] != 'large'):
                        raise  # the algorithm is known to converge here
                    ctx.outcome('diverged: error')
                    return 'error'
                e = w.verify(u, tol)
                w.unique(u, tol)
                ctx.outcome('stiffness recomputed' if n > 2 else 'stiffness kept')
                return e
            ctx.case(['grid', nk, tol], f)
    elif job['kind'] == 'linear':
        for k in job['lin']:
            def f():
                o = dict(LIN[k])
                bad = o.get('custom_solver')
                if bad:
                    def custom(A, b, x0, opts):
                        e = np.linalg.solve(dense(A), np.asarray(b))
                        return jnp.asarray({'half': .5 * e, 'zero': 0. * e, 'garbage': np.cos(np.arange(len(e))), 'negated': -e, 'nan': e * np.nan, 'exact': e}[bad])
                    o = {'custom_solver': custom}
                try:
                    u = solve(w, dict(tol=1e-7, linear=o))
                except AssertionError:
                    if bad == 'nan' or k in (8, 9) or job['prob'] not in ('scalar', 'coupled'):
                        ctx.outcome('refused')
                        return 'refused'
                    raise
                w.verify(u, 1e-7)
                w.unique(u, 1e-7)
                ctx.outcome('converged')
            ctx.case(['linear', k], f)
    elif job['kind'] == 'divergent':
        for k in range(job['n']):
            def f():
                cfg = dict(tol=[1e-6, 1e-2][k % 2], nKMat=[1000, 0, 2][k // 2 % 3])
                if k >= 6:
                    cfg['initial_guess'] = models.split_list(w.p, [.3, .8, -.4][k // 2 % 3] * np.cos(k + np.arange(w.r.n)))
                if k >= 12:
                    w.setbc(1)
                try:
                    u = solve(w, cfg)
                except AssertionError:
                    ctx.outcome('diverged: error')
                    return 'error'
                w.verify(u, cfg['tol'])
                ctx.outcome('diverging problem: returned an equilibrium')
                return 'equilibrium'
            ctx.case(['divergent', k], f)
    else:
        # solves after other solves on the same problem, Dirichlet sets changing in between
        for rest in itertools.product(range(4), repeat=job['depth'] - len(job['pre'])):
            word = job['pre'] + list(rest)

            def f():
                for o in word:
                    w.setbc(o % 2)
                    try:
                        if o < 2:
                            u = solve(w, dict(tol=1e-7, nKMat=[1000, 3][o]))
                        else:
                            u = solve(w, dict(tol=1e-7, initial_guess=models.split_list(w.p, models.state(w.r.n, o))))
                    except AssertionError:
                        if o < 2 and job['prob'] == 'stiff':
                            raise
                        continue
                    w.verify(u, 1e-7)
                    w.unique(u, 1e-7)
            ctx.case(['history', word], f)
