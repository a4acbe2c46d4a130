"""C32: third-medium contact.  The shipped stress, rotation and history update are compared with closed forms of the planar problem for every
assignment of solid and void, and every word of load levels inside the bound is solved and checked for equilibrium with its own history."""
import itertools
import os
import numpy as np
import meshio
from mc import ref, meshes, apps
from mc.core import CheckFail

LEVEL = 'model_checking'
RULE = ('point: one case per deformation gradient, phase and old rotation; kernel: one case per assignment of solid and void to the cells x nodal state x old rotation; history: one case per node of the tree of load levels; '
        'driver: one case per schedule, the shipped loop run as a whole; non-trivial: the deformation is not zero')
BOUND = {'quick': '90 deformation gradients x 2 phases x 4 old rotations; all 16 assignments on 4 cells x 6 states x 3 old rotations; all load words of length 3 over 3 levels from 2 assignments; 2 schedules of the shipped loop',
         'thorough': '450 deformation gradients; all 64 assignments on 6 cells; load words of length 5; 4 schedules'}
ASSUMPTIONS = ['the random perturbation of the deformation gradient is read off the code (diagonal, at most 1e-6)', 'old rotations of the shipped update are means over a cell, so they need not be orthogonal']
E_, NU, KR = 1., .4, 1e-2


def jobs(tier, seed):
    q = tier == 'quick'
    js = [dict(kind='driver', k=k) for k in range(2 if q else 4)]
    js += [dict(kind='history', cfg=a, first=i, depth=3 if q else 5) for a in range(2 if q else 3) for i in range(3)]
    js += [dict(kind='kernel', mesh=0 if q else 1, old=o) for o in range(3)]
    if not q:
        js += [dict(kind='kernel', mesh=0, old=o) for o in range(3)]
    js += [dict(kind='point', old=o, fine=not q) for o in range(4)]
    return js


def run(job, ctx):
    globals()[job['kind']](job, ctx)


# ---------------------------------------------------------------- closed forms
def rot(F):
    """rotation of a planar deformation gradient (..., 2, 2) -> (..., 3, 3)"""
    c, s = F[..., 0, 0] + F[..., 1, 1], F[..., 1, 0] - F[..., 0, 1]
    r = np.sqrt(c * c + s * s)
    c, s = c / r, s / r
    z, o = 0 * c, 0 * c + 1
    return np.stack([np.stack([c, -s, z], -1), np.stack([s, c, z], -1), np.stack([z, z, o], -1)], -2)


def stress(F, theta, old):
    K, G = E_ / (3 * (1 - 2 * NU)), E_ / (2 * (1 + NU))
    J = F[..., 0, 0] * F[..., 1, 1] - F[..., 0, 1] * F[..., 1, 0]
    cof = np.stack([np.stack([F[..., 1, 1], -F[..., 1, 0]], -1), np.stack([-F[..., 0, 1], F[..., 0, 0]], -1)], -2)
    inv = cof / J[..., None, None]
    vol = K * np.log(J)[..., None, None] * inv
    I1 = np.sum(F * F, axis=(-1, -2)) + 1
    iso = G * (np.exp(-2. / 3 * np.log(J))[..., None, None]) * (F - I1[..., None, None] / 3 * inv)
    c, s = F[..., 0, 0] + F[..., 1, 1], F[..., 1, 0] - F[..., 0, 1]
    r2 = c * c + s * s
    R = rot(F)
    S = np.array([[0., -1, 0], [1, 0, 0], [0, 0, 0]])
    # energy k/2 |I - R Rold^T|^2 with R orthogonal: only -k tr(R Rold^T) depends on the angle
    dpsi = -KR * np.einsum('...ij,...jk,...ik->...', R, S, old)
    one, z = np.ones_like(c), 0 * c
    dc = np.stack([np.stack([one, z], -1), np.stack([z, one], -1)], -2)
    ds = np.stack([np.stack([z, -one], -1), np.stack([one, z], -1)], -2)
    reg = (dpsi / r2)[..., None, None] * (c[..., None, None] * ds - s[..., None, None] * dc)
    t = np.asarray(theta)[..., None, None] > .5
    return np.where(t, vol + iso, 1e-6 * iso + reg)


def turn(a):
    return np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])


def olds():
    return [np.eye(3), turn(.7), turn(-2.4), .5 * (turn(.3) + turn(1.1))]


class Contact:
    def __init__(self, p, c, noise):
        self.s = ref.Space('QUAD4', p, c, 2, 2, 'Gauss-Lobatto-Legendre')
        self.noise = noise

        def vol(xp, us, gs, x, ivs):
            return [(stress(gs[0] + self.noise + np.eye(2), ivs[0], ivs[1]), None)]
        self.m = ref.RefModel([self.s], vol)
        self.G = self.m.geo[0]['G']

    def F(self, u):
        return np.einsum('cqnd,cnv->cqvd', self.G, np.asarray(u).reshape(-1, 2)[self.s.cells]) + self.noise + np.eye(2)

    def old(self, u):
        R = rot(self.F(u))
        return np.broadcast_to(R.mean(1, keepdims=True), R.shape)


def perturb(prob):
    import jax.numpy as jnp
    N = np.asarray(prob.get_maps()[1](jnp.zeros((2, 2))))
    if not np.allclose(N[2], [0, 0, 1]) or not np.allclose(N[:, 2], [0, 0, 1]):
        raise CheckFail('deformation gradient %s' % N)
    N = N[:2, :2] - np.eye(2)
    if np.abs(N).max() > 1e-6 or N[0, 1] != 0 or N[1, 0] != 0:
        raise CheckFail('perturbation %s' % N)
    return N


def grid(n, L, H):
    p, c = meshes.mesh('QUAD4', n, [L, H])
    return p, np.asarray(c)


def make(ctx, p, c, over=None, bc=None):
    ns = apps.script(ctx, 'third_medium_contact', over=over or {})
    prob = ns['Contact'](ns['Mesh'](p, c), vec=2, dim=2, ele_type='QUAD4', quadrature_rule='Gauss-Lobatto-Legendre', quadrature_order=2, dirichlet_bc_info=bc(ns) if bc else None)
    return ns, prob


def point(job, ctx):
    import jax
    import jax.numpy as jnp
    p, c = grid([1, 1], 1., 1.)
    ns, prob = make(ctx, p, c)
    N = perturb(prob)
    P, defo, rotation = prob.get_maps()
    P, rotation = jax.jit(P), jax.jit(rotation)
    old = olds()[job['old']]
    ang = [0., .4, -1.3, 2.6, 3.1] if not job['fine'] else list(np.linspace(-3.1, 3.1, 15))
    lam = [(1., 1.), (1.4, .8), (.6, 1.7), (1.3, 1.2), (.35, .9), (1., 1.2)]
    if job['fine']:
        lam += [(2.5, .3), (.9, .95), (1.05, 1.5), (.2, .25)]
    for a in ang:
        for l in lam:
            for b in (0., .5, 1.2):
                F = turn(a)[:2, :2] @ turn(b)[:2, :2] @ np.diag(l) @ turn(b)[:2, :2].T
                g = F - np.eye(2)
                for th in (1., 0.):
                    def one():
                        R = np.asarray(rotation(defo(jnp.array(g))))
                        want = rot(F + N)
                        if not ref.close(R, want, 1e-8, 1e-8):
                            raise CheckFail('rotation %s' % ref.diff(R, want))
                        got, want = np.asarray(P(jnp.array(g), th, jnp.array(old))), stress(F + N, th, old)
                        # the derivative of the rotation is lost by eigenvectors only when principal stretches differ by less than the perturbation
                        if not ref.close(got, want, 1e-6, 2e-8):
                            raise CheckFail('stress %s' % ref.diff(got, want))
                        ctx.add(states=1)
                    ctx.case([job['old'], a, list(l), b, th], one, nontrivial=bool(np.abs(g).max() > 0))


def states(p):
    L = p.max(0)
    x, y = p[:, 0] / L[0], p[:, 1] / L[1]
    S = L.max()
    z = np.stack([np.sin(3 * x + 2 * y), np.cos(4 * x - y)], 1)
    return [0 * p, p @ (turn(.6)[:2, :2] - np.eye(2)).T, np.stack([.3 * p[:, 1], 0 * x], 1), np.stack([.2 * p[:, 0], -.4 * p[:, 1]], 1), .06 * S * z, p @ (turn(2.9)[:2, :2] - np.eye(2)).T + .04 * S * z]


def kernel(job, ctx):
    import jax.numpy as jnp
    p, c = grid([[2, 2], [3, 2]][job['mesh']], 1.2, 1.)
    inner = np.all((p > 1e-9) & (p < p.max(0) - 1e-9), axis=1)
    p = p + np.where(inner[:, None], .08 * np.array([1., -.6]), 0.)
    c = meshes.rotate_cells('QUAD4', c, [0, 2, 1])
    ns, prob = make(ctx, p, c)
    R = Contact(p, c, perturb(prob))
    nq = R.G.shape[1]
    old = [np.broadcast_to(np.eye(3), (len(c), nq, 3, 3)), None, np.broadcast_to(olds()[3], (len(c), nq, 3, 3))][job['old']]
    if old is None:
        u = states(p)[4]
        old = R.old(u)

        def post():
            got = np.asarray(prob.post_processing(jnp.array(u)))
            if not ref.close(got, old, 1e-8, 1e-8):
                raise CheckFail('stored rotation %s' % ref.diff(got, old))
        ctx.case(['post', job['mesh']], post)
    for i, u in enumerate(states(p)):
        for word in itertools.product((0., 1.), repeat=len(c)):
            def one():
                th = np.repeat(np.array(word)[:, None], nq, 1)
                prob.internal_vars = [jnp.array(th), jnp.array(old)]
                got, want = np.asarray(prob.compute_residual([jnp.array(u)])[0]).reshape(-1), R.m.residual(u.reshape(-1), [th, old])
                if not ref.close(got, want, 2e-6, 2e-8):
                    raise CheckFail('residual %s' % ref.diff(got, want))
                ctx.add(states=1)
            ctx.case([job['mesh'], job['old'], i, list(word)], one, nontrivial=i > 0)


# ---------------------------------------------------------------- load paths
LEVELS = [.003, .007, -.004]  # larger jumps invert elements within the first Newton step (of the reference as well)
CFG = [dict(n=[3, 3], solid=lambda i, j: j != 1 or i == 0), dict(n=[4, 2], solid=lambda i, j: i < 3), dict(n=[3, 4], solid=lambda i, j: i == 0 or j in (0, 3))]


def history(job, ctx):
    import jax.numpy as jnp
    cfg = CFG[job['cfg']]
    n, H, L = cfg['n'], 500., 800.
    p, c = grid(n, L, H)
    hx, hy = L / n[0], H / n[1]
    load = np.where((np.abs(p[:, 0] - L) < 1e-5) & (np.abs(p[:, 1] - H) < 1e-5))[0]

    def bc(ns):
        P = ns['np']
        left = lambda x: P.isclose(x[0], 0., atol=1e-5)
        tip = lambda x: P.isclose(x[0], L, atol=1e-5) & P.isclose(x[1], H, atol=1e-5)
        return [[left, left, tip], [0, 1, 1], [lambda x: 0., lambda x: 0., ns['get_dirichlet_topright'](0)]]
    ns, prob = make(ctx, p, c, dict(height=H, length=L), bc)
    R = Contact(p, c, perturb(prob))
    mid = p[c].mean(1)
    th = np.array([1. if cfg['solid'](int(m[0] // hx), int(m[1] // hy)) else 0. for m in mid])
    th = np.repeat(th[:, None], R.G.shape[1], 1)
    left = np.where(np.abs(p[:, 0]) < 1e-5)[0]
    opts = {'spsolve_solver': {}}
    fwd = ns['ad_wrapper'](prob, solver_options=opts, adjoint_solver_options={'spsolve_solver': {}})

    def walk(path, u0):
        new = []

        def one():
            lev = LEVELS[path[-1]]
            old = np.asarray(prob.post_processing(jnp.array(u0)))
            if not ref.close(old, R.old(u0), 1e-8, 1e-8):
                raise CheckFail('stored rotation %s' % ref.diff(old, R.old(u0)))
            opts['initial_guess'] = [jnp.array(u0)]
            u = np.asarray(fwd([lev, jnp.array(th), jnp.array(old)])[0])
            equilibrium(R, u, th, old, left, load, -lev * H, path)
            new.append(u)
            ctx.add(states=1, transitions=1, traces=int(len(path) == job['depth']))
            return 'tip %.4g, minimum J %.3g' % (u[load[0], 1], np.linalg.det(R.F(u)).min())
        ctx.case([job['cfg'], path], one)
        if new and len(path) < job['depth']:
            for i in range(len(LEVELS)):
                walk(path + [i], new[0])
    walk([job['first']], np.zeros((len(p), 2)))


def equilibrium(R, u, th, old, left, load, val, what):
    r = R.m.residual(u.reshape(-1), [th, old])
    fix = np.concatenate([2 * left, 2 * left + 1, 2 * load + 1])
    v = np.concatenate([np.zeros(2 * len(left)), np.full(len(load), val)])
    r[fix] = u.reshape(-1)[fix] - v
    if not np.all(np.isfinite(r)) or not np.linalg.norm(r) <= 2e-6:
        raise CheckFail('%s: residual %g (largest entry %g) after the solve' % (what, np.linalg.norm(r), np.abs(r).max()))


def driver(job, ctx):
    k = job['k']
    ds = [np.linspace(0., .06, 7), np.linspace(0., .02, 3), np.array([0., .02, .05, .02, -.03]), np.linspace(0., .1, 6)][k]

    def one():
        log, saves, probs = [], [], []

        def wrap(f):
            def g(problem, solver_options={}, adjoint_solver_options={}, **kw):
                o = {}
                h = f(problem, solver_options=o, adjoint_solver_options={'spsolve_solver': {}}, **kw)
                probs.append(problem)

                def call(params):
                    o.clear()
                    o.update({a: b for a, b in solver_options.items() if a != 'petsc_solver'}, spsolve_solver={})
                    out = h(params)
                    log.append((params, [np.array(x) for x in out]))
                    return out
                return call
            return g

        def save(f):
            def g(fe, sol, path, cell_infos=None, point_infos=None):
                saves.append((np.array(sol), {a: np.array(b) for a, b in cell_infos or []}))
                f(fe, sol, path, cell_infos, point_infos) if point_infos is not None else f(fe, sol, path, cell_infos)
            return g
        apps.script(ctx, 'third_medium_contact', whole=True, over=dict(h=100, scale_ds=ds), patch=dict(ad_wrapper=wrap, save_sol=save))
        prob = probs[0]
        p, c = np.asarray(prob.fes[0].points), np.asarray(prob.fes[0].cells)
        L, H, arm = 1000., 500., 100.
        if not np.allclose(p.max(0), [L + 100, H]):
            raise CheckFail('domain %s' % p.max(0))
        R = Contact(p, c, perturb(prob))
        m = p[c].mean(1)
        want = np.where((m[:, 0] < L) & ((m[:, 0] < arm) | (m[:, 1] > H - arm) | (m[:, 1] < arm)), 1., 0.)
        left, load = np.where(np.abs(p[:, 0]) < 1e-5)[0], np.where((np.abs(p[:, 0] - L) < 1e-5) & (np.abs(p[:, 1] - H) < 1e-5))[0]
        if len(log) != len(ds):
            raise CheckFail('%d solves instead of %d' % (len(log), len(ds)))
        u0 = np.ones((len(p), 2))
        for i, ((s, th, old), (u,)) in enumerate(log):
            if abs(float(s) - ds[i]) > 1e-12:
                raise CheckFail('step %d at scale %g instead of %g' % (i, s, ds[i]))
            th, old = np.asarray(th), np.asarray(old)
            if th.shape != R.G.shape[:2] or not np.array_equal(th, np.repeat(want[:, None], th.shape[1], 1)):
                raise CheckFail('solid and void are not as described')
            if not ref.close(old, R.old(u0), 1e-8, 1e-8):
                raise CheckFail('step %d: stored rotation %s' % (i, ref.diff(old, R.old(u0))))
            equilibrium(R, u, th, old, left, load, -ds[i] * H, 'step %d' % i)
            u0 = u
            ctx.add(states=1, transitions=1)
        (sol, info), = saves
        if not np.allclose(sol, np.hstack([u0, np.zeros((len(p), 1))]), atol=1e-9) or not np.allclose(np.asarray(info['theta']).reshape(-1), want):
            raise CheckFail('the file does not hold the last state')
        ctx.add(traces=1)
        return 'tip %.4g, minimum J %.3g' % (u0[load[0], 1], np.linalg.det(R.F(u0)).min())
    ctx.case(['driver', k], one, timeout=180)
