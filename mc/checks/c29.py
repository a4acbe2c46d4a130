"""C29: time stepping examples (wave equation, transient thermoelasticity, explicit dynamics).  The update of every example is linear in its
states, so the kernels are compared on a complete basis of (new state, old states); the shipped time loops are executed as a whole and every
step is replayed by an independent numpy integrator."""
import itertools
import os
import re
import numpy as np
from mc import ref, meshes, apps
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('cells: one case per list of node orders of triangles; kernel: one case per basis vector of the states (all of them) and parameter set; history: one case per node of the tree of time increments and boundary '
        'data; driver and explicit: one case per run of the shipped script on a mesh and schedule, every step replayed; non-trivial: some state is not zero')
BOUND = {'quick': 'all 6 node orders of 7 triangles, alone and in all pairs, two element types, three scripts; complete basis on 3 meshes x 3 time increments; all increment words of length 3 over 3 increments; 6 whole runs of the shipped loops (about 2000 time steps)',
         'thorough': 'complete basis on 6 meshes; increment words of length 5; 14 whole runs'}
ASSUMPTIONS = ['the schedules stay inside the stability limit of the explicit scheme (the shipped step size on coarser meshes)']

TRIS = [[[0, 0], [1, 0], [0, 1]], [[0, 0], [1, 0], [1, 1]], [[-1, 2], [3, -1], [2, 2]], [[0, 0], [1e-6, 0], [3e-7, 1e-6]], [[0, 0], [10, 0], [-9, .01]], [[100., 100.], [100.5, 100.2], [100.1, 100.7]], [[0, 0], [0, -2.], [2., 0]]]
PERMS = list(itertools.permutations(range(3)))
MID = {frozenset((0, 1)): 3, frozenset((1, 2)): 4, frozenset((0, 2)): 5}


def jobs(tier, seed):
    q = tier == 'quick'
    js = [dict(kind='explicit', k=k) for k in range(2 if q else 6)]
    js += [dict(kind='driver', app=a, k=k) for a in ('wave', 'thermo') for k in range(2 if q else 4)]
    js += [dict(kind='kernel', app=a, k=k) for a in ('wave', 'thermo') for k in range(3 if q else 6)]
    js += [dict(kind='history', k=k, first=i, depth=3 if q else 5) for k in range(1 if q else 2) for i in range(3)]
    js += [dict(kind='cells', app=a) for a in ('wave', 'stokes', 'thermal_mechanical_full')]
    return js


def run(job, ctx):
    globals()[job['kind']](job, ctx)


# ---------------------------------------------------------------- node order
def cells(job, ctx):
    f = apps.load(ctx, job['app']).transform_cells
    for ele in ('TRI3', 'TRI6'):
        base = []
        pts = []
        for t in TRIS:
            v = np.array(t, float)
            n = len(pts)
            pts += list(v) + ([(v[0] + v[1]) / 2, (v[1] + v[2]) / 2, (v[2] + v[0]) / 2] if ele == 'TRI6' else [])
            base.append(n)
        pts = np.array(pts)

        def cell(k, p):
            c = [base[k] + i for i in p]
            if ele == 'TRI6':
                c += [base[k] + MID[frozenset(e)] for e in ((p[0], p[1]), (p[1], p[2]), (p[2], p[0]))]
            return c
        words = [[(k, p)] for k in range(len(TRIS)) for p in PERMS]
        words += [[a, b] for (a,) in words for (b,) in [w for w in words if len(w) == 1] if a[0] < b[0]]
        for w in words:
            def one():
                C = np.array([cell(k, p) for k, p in w])
                keep = C.copy()
                out = np.asarray(f(C, pts, ele))
                if not np.array_equal(C, keep):
                    raise CheckFail('the cells handed over were changed')
                if out.shape != C.shape:
                    raise CheckFail('shape %s' % (out.shape,))
                for a, b in zip(C, out):
                    if sorted(a) != sorted(b):
                        raise CheckFail('%s became %s: other nodes' % (a, b))
                    x = pts[b[:3]]
                    d = (x[1, 0] - x[0, 0]) * (x[2, 1] - x[0, 1]) - (x[1, 1] - x[0, 1]) * (x[2, 0] - x[0, 0])
                    if d <= 0:
                        raise CheckFail('%s is still clockwise' % b)
                    if ele == 'TRI6':
                        for m, (i, j) in zip(b[3:], ((0, 1), (1, 2), (2, 0))):
                            if not np.allclose(pts[m], (pts[b[i]] + pts[b[j]]) / 2, atol=1e-9):
                                raise CheckFail('%s became %s: middle node %d is not between its corners' % (a, b, m))
                    y = pts[a[:3]]
                    if (y[1, 0] - y[0, 0]) * (y[2, 1] - y[0, 1]) - (y[1, 1] - y[0, 1]) * (y[2, 0] - y[0, 0]) > 0 and not np.array_equal(a, b):
                        raise CheckFail('counter-clockwise %s was changed to %s' % (a, b))
            ctx.case([ele, w], one)


# ---------------------------------------------------------------- meshes of the examples
def turn(c, k):
    """node orders of FEniCS meshes: any, clockwise ones included"""
    return np.array([np.array(a)[list(PERMS[(i * 5 + k) % 6])] for i, a in enumerate(c)])


def square(k):
    n = [[3, 3], [2, 4], [4, 3], [1, 2], [5, 2], [4, 4]][k]
    p, c = meshes.linear_mesh('TRI3', n)
    inner = np.all((p > 1e-9) & (p < 1 - 1e-9), axis=1)
    p = p + np.where(inner[:, None], .06 * np.stack([np.sin(7 * p[:, 0] + k), np.cos(5 * p[:, 1])], 1), 0.)
    return p, np.asarray(c)


def hole(k):
    """quarter of a plate with a hole of radius .1"""
    nr, nt = [(2, 3), (3, 2), (2, 4), (1, 2), (4, 2), (3, 4)][k]
    r = .1 + .9 * (np.arange(nr + 1) / nr) ** 1.5
    th = np.linspace(0, np.pi / 2, nt + 1)
    p = np.array([[a * np.cos(t), a * np.sin(t)] for a in r for t in th])
    p[np.abs(p) < 1e-14] = 0.
    c = []
    for i in range(nr):
        for j in range(nt):
            a = i * (nt + 1) + j
            q = [a, a + nt + 1, a + nt + 2, a + 1]
            c += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if (i + j + k) % 2 else [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
    return p, np.array(c)


def ccw(p, c):
    out = []
    for a in c:
        x = p[a]
        d = (x[1, 0] - x[0, 0]) * (x[2, 1] - x[0, 1]) - (x[1, 1] - x[0, 1]) * (x[2, 0] - x[0, 0])
        out.append(a if d > 0 else a[[0, 2, 1]])
    return np.array(out)


class Wave:
    def __init__(self, p, c, dt, speed):
        self.s = ref.Space('TRI3', p, ccw(p, c), 1, order=2)
        self.p = p

        def vol(xp, us, gs, x, ivs):
            return [(speed ** 2 * dt ** 2 * gs[0], us[0] - 2 * ivs[1] + ivs[0])]
        self.m = ref.RefModel([self.s], vol)
        b = np.any((np.abs(p) < 1e-9) | (np.abs(p - 1) < 1e-9), axis=1)
        self.bc = [(np.where(b)[0], np.ones(int(b.sum())))]

    def quads(self, u):
        return np.einsum('qn,cnv->cqv', self.s.N, np.asarray(u)[self.s.cells])

    def residual(self, u, u0, u1):
        """u0: two steps back, u1: one step back"""
        return self.m.residual(np.asarray(u).reshape(-1), [self.quads(u0), self.quads(u1)])


class Thermo:
    def __init__(self, ns, p, c):
        c = ccw(p, c)
        self.p, self.n = p, len(p)
        self.su, self.st = ref.Space('TRI3', p, c, 2, order=2), ref.Space('TRI3', p, c, 1, order=2)
        self.c = c
        E, nu, T0 = ns['E'], ns['nu'], ns['T0']
        mu, lam = E / 2 / (1 + nu), E * nu / ((1 + nu) * (1 - 2 * nu))
        kappa = ns['alpha'] * (2 * mu + 3 * lam)
        I = np.eye(2)

        def vol(xp, us, gs, x, ivs):
            gold, told, dt = ivs
            tr = np.trace(gs[0], axis1=-2, axis2=-1)[..., None]
            trold = np.trace(gold, axis1=-2, axis2=-1)[..., None]
            sig = lam * tr[..., None] * I + mu * (gs[0] + np.swapaxes(gs[0], -1, -2)) - kappa * us[1][..., None] * I
            return [(sig, None), (ns['k'] * gs[1], ns['C'] * (us[1] - told) / dt + kappa * T0 * (tr - trold) / dt)]
        self.m = ref.RefModel([self.su, self.st], vol)
        n = self.n
        left, bottom = np.where(np.abs(p[:, 0]) < 1e-9)[0], np.where(np.abs(p[:, 1]) < 1e-9)[0]
        rim = np.where(np.abs(np.hypot(p[:, 0], p[:, 1]) - .1) < 1e-6)[0]
        self.bc = [(2 * left, np.zeros(len(left))), (2 * bottom + 1, np.zeros(len(bottom))), (2 * n + rim, np.full(len(rim), ns['theta_hole']))]

    def residual(self, u, T, u0, T0, dt):
        g = np.einsum('cqnd,cnv->cqvd', self.m.geo[0]['G'], np.asarray(u0)[self.c])
        t = np.einsum('qn,cnv->cqv', self.st.N, np.asarray(T0)[self.c])
        return self.m.residual(np.concatenate([np.asarray(u).reshape(-1), np.asarray(T).reshape(-1)]), [g, t, dt])

    def solve(self, u0, T0, dt):
        """one implicit step with a dense solve"""
        f = lambda v: self.residual(v[:2 * self.n].reshape(-1, 2), v[2 * self.n:].reshape(-1, 1), u0, T0, dt)
        N = 3 * self.n
        r0 = f(np.zeros(N))
        key = float(dt)
        if not hasattr(self, 'K'):
            self.K = {}
        if key not in self.K:
            self.K[key] = np.stack([f(e) - r0 for e in np.eye(N)], 1)
        A, b = self.K[key].copy(), -r0
        for dofs, vals in self.bc:
            A[dofs] = 0
            A[dofs, dofs] = 1
            b[dofs] = vals
        sc = 1 / np.abs(A).max(1)
        v = np.linalg.solve(sc[:, None] * A, sc * b)
        return v[:2 * self.n].reshape(-1, 2), v[2 * self.n:].reshape(-1, 1)


DTS = [10., 40., 900.]


def kernel(job, ctx):
    import jax.numpy as jnp
    k = job['k']
    if job['app'] == 'wave':
        p, c = square(k)
        for dt, speed in [(1 / 250000, 5000.), (.01, 3.), (1., .25)]:
            mod = apps.script(ctx, 'wave', over=dict(dt=dt, c=speed))
            R = Wave(p, turn(c, k), dt, speed)
            prob = mod['wave'](mod['Mesh'](p, mod['transform_cells'](turn(c, k), p, 'TRI3')), vec=1, dim=2, ele_type='TRI3', quadrature_order=2)
            n = len(p)

            def res(v):
                a = v.reshape(3, n, 1)
                prob.set_params([jnp.array(a[0]), jnp.array(a[1])])
                return np.asarray(prob.compute_residual([jnp.array(a[2])])[0]).reshape(-1), R.residual(a[2], a[0], a[1])
            basis(ctx, [k, dt, speed], 3 * n, res, 1.)
        return
    p, c = hole(k)
    ns = apps.script(ctx, 'thermal_mechanical_full')
    R = Thermo(ns, p, turn(c, k))
    mesh = ns['Mesh'](p, ns['transform_cells'](turn(c, k), p, 'TRI3'))
    prob = ns['thermal_mechanical_full']([mesh, mesh], vec=[2, 1], dim=2, ele_type=['TRI3'] * 2, quadrature_order=[2, 2])
    n = len(p)
    for dt in DTS:
        def res(v):
            u, T, u0, T0 = v[:2 * n].reshape(n, 2), v[2 * n:3 * n].reshape(n, 1), v[3 * n:5 * n].reshape(n, 2), v[5 * n:].reshape(n, 1)
            prob.set_params([jnp.array(u0), jnp.array(T0), dt])
            got = prob.compute_residual([jnp.array(u), jnp.array(T)])
            return np.concatenate([np.asarray(g).reshape(-1) for g in got]), R.residual(u, T, u0, T0, dt)
        basis(ctx, [k, dt], 6 * n, res, None)


def basis(ctx, key, n, res, scale):
    """The residual is affine in all states: zero, all unit vectors and one mixture determine it."""
    for i in range(-2, n):
        def one():
            v = np.zeros(n) if i == -2 else np.sin(1. + np.arange(n)) if i == -1 else np.eye(n)[i]
            got, want = res(v)
            s = max(1e-12, np.abs(want).max())
            if got.shape != want.shape or not np.abs(got - want).max() <= 1e-10 * s:
                raise CheckFail('residual differs: %s' % ref.diff(got, want))
            # the two equations have very different magnitudes: compare each entry against the entries of its own size as well
            small = np.abs(want) > 1e-14 * s
            if not np.all(np.abs(got - want)[small] <= 1e-7 * np.abs(want)[small] + 1e-13 * s):
                raise CheckFail('small entries of the residual differ: %s' % ref.diff(got[small], want[small]))
            ctx.add(states=1)
        ctx.case(key + [i], one, nontrivial=i != -2)


def history(job, ctx):
    """All words of time increments: the step must depend on the current increment and old states only."""
    import jax.numpy as jnp
    p, c = hole(job['k'])
    c = turn(c, 1)
    ns = apps.script(ctx, 'thermal_mechanical_full')
    R = Thermo(ns, p, c)
    P = ns['np']

    def on(d):
        return lambda x: P.isclose(x[d], 0., atol=1e-5)
    rim = lambda x: P.isclose(x[0] ** 2 + x[1] ** 2, .01, atol=1e-3)
    zero = lambda x: 0.
    mesh = ns['Mesh'](p, ns['transform_cells'](c, p, 'TRI3'))
    prob = ns['thermal_mechanical_full']([mesh, mesh], vec=[2, 1], dim=2, ele_type=['TRI3'] * 2, quadrature_order=[2, 2],
                                         dirichlet_bc_info=[[[on(0), on(1)], [0, 1], [zero] * 2], [[rim], [0], [lambda x: ns['theta_hole']]]])

    def walk(path, st):
        new = []

        def one():
            u0, T0 = st
            dt = DTS[path[-1]]
            prob.set_params([jnp.array(u0), jnp.array(T0), dt])
            got = [np.asarray(a) for a in ns['solver'](prob, solver_options={'spsolve_solver': {}})]
            want = R.solve(u0, T0, dt)
            for g, w, nm in zip(got, want, ('displacement', 'temperature')):
                if not np.abs(g - w).max() <= 2e-5 * np.abs(w).max() + 1e-12:
                    raise CheckFail('increments %s: %s %s' % ([DTS[i] for i in path], nm, ref.diff(g, w)))
            new.append(got)
            ctx.add(states=1, transitions=1, traces=1)
            return 'temperature %.6g .. %.6g' % (got[1].min(), got[1].max())
        ctx.case(path, one)
        if new and len(path) < job['depth']:
            for i in range(len(DTS)):
                walk(path + [i], new[0])
    walk([job['first']], (np.zeros((len(p), 2)), np.zeros((len(p), 1))))


# ---------------------------------------------------------------- shipped loops
def recorder(log):
    def wrap_solver(f):
        def g(problem, *a, **kw):
            out = f(problem, *a, **kw)
            log.append(('solve', [np.array(x) for x in out], [np.array(v) for v in problem.internal_vars]))
            return out
        return g

    def wrap_save(f):
        def g(fe, sol, path, *a, **kw):
            log.append(('save', np.array(sol), path))
            return f(fe, sol, path, *a, **kw)
        return g
    return dict(solver=wrap_solver, save_sol=wrap_save)


def put(p, c):
    def files(d):
        os.makedirs(os.path.join(d, 'input', 'numpy'), exist_ok=True)
        np.save(os.path.join(d, 'input', 'numpy', 'points.npy'), p)
        np.save(os.path.join(d, 'input', 'numpy', 'cells.npy'), c)
    return files


def driver(job, ctx):
    k = job['k']

    def wave_run():
        p, c = square(k)
        c = turn(c, k + 1)
        dt, speed, steps = [(1 / 250000, 5000., 40), (.02, 2., 25), (1e-4, 300., 30), (.3, 1., 25)][k]
        log = []
        apps.script(ctx, 'wave', whole=True, over=dict(dt=dt, c=speed, steps=steps), patch=recorder(log), files=put(p, c))
        R = Wave(p, c, dt, speed)
        sols = [x for x in log if x[0] == 'solve']
        saves = [x for x in log if x[0] == 'save']
        if len(sols) != steps or len(saves) != steps:
            raise CheckFail('%d steps and %d files instead of %d' % (len(sols), len(saves), steps))
        u0 = u1 = np.zeros((len(p), 1))
        dofs, vals = R.bc[0]
        n = len(p)
        r0 = R.residual(np.zeros((n, 1)), 0 * u0, 0 * u0)
        K = np.stack([R.residual(e.reshape(n, 1), 0 * u0, 0 * u0) - r0 for e in np.eye(n)], 1)
        K[dofs] = 0
        K[dofs, dofs] = 1.
        for i, (s, f) in enumerate(zip(sols, saves)):
            u = s[1][0]
            b = -R.residual(np.zeros((n, 1)), u0, u1)
            b[dofs] = vals
            want = np.linalg.solve(K, b).reshape(n, 1)
            if not np.abs(u - want).max() <= 2e-4 * max(1., np.abs(want).max()):
                raise CheckFail('step %d: %s' % (i + 1, ref.diff(u, want)))
            r = R.residual(u, u0, u1)
            r[dofs] = u[dofs, 0] - vals
            if not np.abs(r).max() <= 2e-6:
                raise CheckFail('step %d: the wave equation is violated by %g' % (i + 1, np.abs(r).max()))
            if not np.array_equal(f[1], u) or not os.path.exists(f[2]):
                raise CheckFail('step %d: saved state' % (i + 1))
            u0, u1 = u1, u
            ctx.add(states=1, transitions=1)
        ctx.add(traces=1)
        return 'range %.4g %.4g' % (u.min(), u.max())

    def thermo_run():
        p, c = hole(k)
        c = turn(c, k + 2)
        log = []
        N = [12, 25, 18, 40][k]
        ns = apps.script(ctx, 'thermal_mechanical_full', whole=True, over=dict(Nincr=N), patch=recorder(log), files=put(p, c))
        R = Thermo(ns, p, c)
        dts = np.diff(np.logspace(1, 4, N + 1))
        sols = [x for x in log if x[0] == 'solve']
        saves = [x for x in log if x[0] == 'save']
        if len(sols) != N or len(saves) != 2 * N:
            raise CheckFail('%d increments and %d files instead of %d' % (len(sols), len(saves), N))
        u0, T0 = np.zeros((len(p), 2)), np.zeros((len(p), 1))
        for i, s in enumerate(sols):
            u, T = s[1]
            r = R.residual(u, T, u0, T0, dts[i])
            for dofs, vals in R.bc:
                r[dofs] = np.concatenate([u.reshape(-1), T.reshape(-1)])[dofs] - vals
            if not np.abs(r).max() <= 2e-6:
                raise CheckFail('increment %d: equations violated by %g' % (i + 1, np.abs(r).max()))
            wu, wT = R.solve(u0, T0, dts[i])
            if not (np.abs(u - wu).max() <= 1e-3 * np.abs(wu).max() and np.abs(T - wT).max() <= 1e-3 * np.abs(wT).max()):
                raise CheckFail('increment %d: u %s T %s' % (i + 1, ref.diff(u, wu), ref.diff(T, wT)))
            a, b = saves[2 * i:2 * i + 2]
            if not (np.array_equal(a[1], u) and np.array_equal(b[1], T) and os.path.exists(a[2]) and os.path.exists(b[2])):
                raise CheckFail('increment %d: saved fields' % (i + 1))
            u0, T0 = u, T
            ctx.add(states=1, transitions=1)
        ctx.add(traces=1)
        return 'temperature %.4g .. %.4g' % (T.min(), T.max())
    ctx.case([job['app'], k], wave_run if job['app'] == 'wave' else thermo_run, timeout=200)


class Plot:
    """stands in for matplotlib.pyplot and keeps the curves"""

    def __init__(self):
        self.curves = {}

    def plot(self, x, y, *a, label=None, **kw):
        self.curves[label] = (np.array(x), np.array(y))

    def __getattr__(self, name):
        return lambda *a, **kw: None


def explicit(job, ctx):
    k = job['k']
    n = [[4, 2, 1], [6, 1, 2], [3, 2, 2], [8, 1, 1], [5, 2, 2], [2, 3, 1]][k]
    p, c = meshes.mesh('HEX8', n, [1., .1, .1])
    c = meshes.rotate_cells('HEX8', c, [k, 3, 0, 7])
    x = p / [1., .1, .1]
    inner = (x[:, 0] > 1e-9) & (x[:, 0] < 1 - 1e-9)
    p = p.copy()
    p[:, 0] += np.where(inner, .02 * np.sin(3. * x[:, 0] + 2 * x[:, 1]) / n[0], 0.)

    def one():
        import contextlib
        import io
        import meshio
        log, plot, text = [], Plot(), io.StringIO()

        def save(f):
            def g(fe, sol, path, *a, **kw):
                log.append((int(re.findall(r'\d+', os.path.basename(path))[-1]), np.array(sol)))
                return f(fe, sol, path, *a, **kw)
            return g
        with contextlib.redirect_stdout(text):
            apps.script(ctx, 'explicit_dynamics', whole=True, patch=dict(box_mesh=lambda f: lambda *a, **kw: meshio.Mesh(p, {'hexahedron': c}), save_sol=save, plt=lambda m: plot))
        cur = plot.curves
        t = cur['Total energy'][0]
        dt, steps = t[1] - t[0], len(t) - 1
        E, nu, rho = 1., .3, 1.
        mu, lam = E / 2 / (1 + nu), E * nu / ((1 + nu) * (1 - 2 * nu))
        I = np.eye(3)
        s = ref.Space('HEX8', p, c, 3)
        m = ref.RefModel([s], lambda xp, us, gs, xx, ivs: [(lam * np.trace(gs[0], axis1=-2, axis2=-1)[..., None, None] * I + mu * (gs[0] + np.swapaxes(gs[0], -1, -2)), None)])
        K = np.stack([m.residual(e) for e in np.eye(m.n)], 1)
        M = np.zeros(len(p))
        np.add.at(M, c.reshape(-1), np.einsum('qn,cq->cn', s.N, m.geo[0]['W']).reshape(-1) * rho)
        M3 = np.repeat(M, 3)
        fixed = np.zeros((len(p), 3), bool)
        fixed[np.isclose(p[:, 0], 0.), 0] = True
        fixed[np.isclose(p[:, 1], 0.) | np.isclose(p[:, 1], .1), 1] = True
        fixed[np.isclose(p[:, 2], 0.) | np.isclose(p[:, 2], .1), 2] = True
        free = ~fixed.reshape(-1)
        period = 4. / np.sqrt(lam + 2 * mu)
        if not abs(t[-1] - period) <= 1e-9 * period:
            raise CheckFail('the run covers a time of %g, one period is %g' % (t[-1], period))
        if not log or log[0][0] != 0:
            raise CheckFail('the initial state was not saved')
        mode = np.sin(np.pi / 2 * p[:, 0])
        amp = log[0][1][np.argmax(mode), 0] / mode.max()
        if not ref.close(log[0][1], np.stack([amp * mode, 0 * mode, 0 * mode], 1), 1e-10, 1e-15) or amp == 0:
            raise CheckFail('initial displacement')
        acc = lambda u: np.where(free, -(K @ u) / M3, 0.)
        u = [np.stack([amp * mode, 0 * mode, 0 * mode], 1).reshape(-1)]
        back = np.where(free, u[0] + .5 * dt ** 2 * acc(u[0]), 0.)
        for i in range(steps):
            u.append(np.where(free, 2 * u[-1] - (u[-2] if i else back) + dt ** 2 * acc(u[-1]), 0.))
        u = np.array(u)
        if [i for i, _ in log] != list(range(0, steps + 1, 10)):
            raise CheckFail('saved steps %s' % [i for i, _ in log][:5])
        for i, a in log:
            if not np.abs(a.reshape(-1) - u[i]).max() <= 1e-9 * amp:
                raise CheckFail('step %d: %s' % (i, ref.diff(a.reshape(-1), u[i])))
        v = np.zeros_like(u)
        v[1:-1] = (u[2:] - u[:-2]) / (2 * dt)
        v[-1] = (3 * u[-1] - 4 * u[-2] + u[-3]) / (2 * dt)
        ke = .5 * (v ** 2) @ M3
        se = .5 * np.einsum('ti,ij,tj->t', u, K, u)
        for nm, w in (('Kinetic energy', ke), ('Strain energy', se), ('Total energy', ke + se)):
            if not np.abs(cur[nm][1] - w).max() <= 1e-8 * se[0]:
                raise CheckFail('%s: %s' % (nm, ref.diff(cur[nm][1], w)))
        # the leapfrog invariant of the reference run itself
        w = (u[1:] - u[:-1]) / dt
        inv = .5 * (w ** 2) @ M3 + .5 * np.einsum('ti,ij,tj->t', u[1:], K, u[:-1])
        if not np.abs(inv - inv[0]).max() <= 1e-8 * inv[0]:
            raise CheckFail('the discrete energy of the replay is not conserved')
        probe = int(np.argmin(np.linalg.norm(p - [1., .05, .05], axis=1)))
        d = np.linalg.norm(p - [1., .05, .05], axis=1)
        near = np.where(d <= d[probe] + 1e-12)[0]
        if not any(np.abs(cur['JAX-FEM'][1] - u[:, 3 * j]).max() <= 1e-9 * amp for j in near):
            raise CheckFail('the displacement curve is not the one of the end of the bar')
        om = np.pi / 2 * np.sqrt(lam + 2 * mu)
        if not any(np.abs(cur['Analytical'][1] - amp * np.cos(om * t) * mode[j]).max() <= 1e-9 * amp for j in near):
            raise CheckFail('analytical curve')
        q = (u.reshape(len(u), -1, 3)[:, :, 0] * M) @ mode
        i = np.flatnonzero(q[1:] <= 0)[0]
        speed = 1. / (t[i] + q[i] / (q[i] - q[i + 1]) * dt)
        got = re.search(r'Measured P-wave speed\s*=\s*([-0-9.e]+)', text.getvalue())
        if got and not abs(float(got.group(1)) - speed) <= 1e-6:
            raise CheckFail('measured speed %s, expected %.8f' % (got.group(1), speed))
        ctx.add(states=steps, transitions=steps, traces=1)
        return '%d steps' % steps
    ctx.case(n, one, timeout=200)
