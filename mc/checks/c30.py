"""C30: dendritic solidification (phase field and heat), three discretisations.  One step is compared with an independent numpy reference from
an alphabet of states, every history of the bound is explored, and the shipped simulations run as a whole with the noise chosen by the checker."""
import contextlib
import json
import os
import re
import sys
import types
from math import comb
import numpy as np
from mc import ref, meshes, apps
from mc.core import CheckFail

LEVEL = 'model_checking'
RULE = ('kernel: one case per state of the alphabet x noise x basis vector of the new state (implicit) or per state (explicit); history: one case per node of the tree of noise fields; '
        'driver: one case per parameter set, the shipped simulation run as a whole; non-trivial: the phase field is not constant')
BOUND = {'quick': '8 states x 3 noises x 3 parameter sets on 2 meshes; all noise words of length 3 over 3 fields from 2 states; 2 simulations per discretisation',
         'thorough': 'noise words of length 5; 5 meshes; 5 simulations per discretisation'}
ASSUMPTIONS = ['where the gradient of the phase field vanishes its direction is taken as 0, as documented in the example',
               'the checker chooses the noise; float64 throughout (the explicit examples ask for float32)']

BASE = dict(J=6, K=1.6, T_eq=1., a=.01, alpha=.9, delta=.04, dt=.0002, eps_bar=.01, gamma=10., hx=.03, hy=.03, nx=4, ny=3, t_OFF=.36, tau=.0003)
PAR = [dict(), dict(J=4, K=2., a=.3, delta=.1, dt=.0001, tau=.0005), dict(J=5, K=1.1, a=.05, alpha=.5, T_eq=.7, gamma=4., hx=.04, hy=.025, eps_bar=.02),
       dict(J=6, delta=0., a=0.), dict(J=3, delta=.2, a=.2)]


def par(k, **kw):
    return dict(BASE, **PAR[k], **kw)


def jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for s in ('implicit', 'explicit'):
        for k in range(2 if q else 5):
            js.append(dict(kind='driver', scheme=s, k=k))
            if s == 'implicit' and (k == 0 or not q):
                js.append(dict(kind='driver', scheme=s, k=k, seed=True))
        for m in range(2 if q else 5):
            for k in range(3 if q else 5):
                js.append(dict(kind='kernel', scheme=s, mesh=m, par=k))
        for st in (2, 3):
            for a in range(3):
                js.append(dict(kind='history', scheme=s, state=st, first=a, depth=3 if q else 5, par=1))
    js += [dict(kind='fd', k=k) for k in ([0, 4] if q else range(5))]
    js.sort(key=lambda j: ['driver', 'fd', 'kernel', 'history'].index(j['kind']))
    return js


def run(job, ctx):
    globals()[job['kind']](job, ctx)


def mesh(k, P):
    n = [[3, 2], [2, 2], [4, 3], [1, 3], [3, 3]][k]
    p, c = meshes.mesh('QUAD4', n, [n[0] * P['hx'], n[1] * P['hy']])
    inner = np.all((p > 1e-9) & (p < p.max(0) - 1e-9), axis=1)
    p = p + np.where(inner[:, None], .2 * P['hx'] * np.stack([np.sin(90 * p[:, 0] + k), np.cos(70 * p[:, 1])], 1), 0.)
    return p, meshes.rotate_cells('QUAD4', c, [0, 1, 3])


# ---------------------------------------------------------------- reference
class Ref:
    def __init__(self, P, p, c):
        self.P, self.p, self.c, self.n = P, p, c, len(p)
        self.s = [ref.Space('QUAD4', p, c, 1), ref.Space('QUAD4', p, c, 1)]
        self.lumped = np.zeros(len(p))
        m = ref.RefModel(self.s, None)
        self.G, self.N, self.W = m.geo[0]['G'], self.s[0].N, m.geo[0]['W']
        np.add.at(self.lumped, c.reshape(-1), np.einsum('qn,cq->cn', self.N, self.W).reshape(-1))

    def eps(self, gx, gy):
        """eps(direction) and its derivative with respect to the angle, from the binomial form of cos(J(theta - pi/2))."""
        P = self.P
        J = P['J']
        r = np.hypot(gx, gy)
        zero = r == 0
        a, b = np.where(zero, 1., gx / np.where(zero, 1., r)), np.where(zero, 0., gy / np.where(zero, 1., r))
        cj = sum(comb(J, i) * a ** (J - i) * b ** i * [1, 0, -1, 0][i % 4] for i in range(J + 1))
        sj = sum(comb(J, i) * a ** (J - i) * b ** i * [0, 1, 0, -1][i % 4] for i in range(J + 1))
        c0, s0 = [(1, 0), (0, 1), (-1, 0), (0, -1)][J % 4]
        return P['eps_bar'] * (1 + P['delta'] * (cj * c0 + sj * s0)), -P['eps_bar'] * P['delta'] * J * (sj * c0 - cj * s0)

    def grad(self, p):
        return np.einsum('cqnd,cn->cqd', self.G, p[self.c])

    def val(self, p):
        return np.einsum('qn,cn->cq', self.N, p[self.c])

    def weak(self, flux, src):
        r = np.zeros(self.n)
        el = 0.
        if flux is not None:
            el = el + np.einsum('cqd,cqnd,cq->cn', flux, self.G, self.W)
        if src is not None:
            el = el + np.einsum('cq,qn,cq->cn', src, self.N, self.W)
        np.add.at(r, self.c.reshape(-1), el.reshape(-1))
        return r

    def flux(self, g, g0):
        e, de = self.eps(g0[..., 0], g0[..., 1])
        return e[..., None] ** 2 * g + (e * de)[..., None] * np.stack([-g[..., 1], g[..., 0]], -1)

    def source(self, p, T, chi):
        P = self.P
        m = P['alpha'] / np.pi * np.arctan(P['gamma'] * (P['T_eq'] - T))
        return p * (1 - p) * (p - .5 + m) + P['a'] * p * (1 - p) * chi[:, None]

    def implicit(self, p, T, p0, T0, chi):
        P = self.P
        vp, vp0, vT, vT0 = [self.val(a) for a in (p, p0, T, T0)]
        rp = self.weak(self.flux(self.grad(p), self.grad(p0)), P['tau'] * (vp - vp0) / P['dt'] - self.source(vp0, vT0, chi))
        rT = self.weak(self.grad(T), (vT - vT0) / P['dt'] - P['K'] * (vp - vp0) / P['dt'])
        return np.concatenate([rp, rT])

    def explicit(self, p, T, chi):
        P = self.P
        g = self.grad(p)
        f = -self.weak(self.flux(g, g), -self.source(self.val(p), self.val(T), chi))
        dp = P['dt'] / P['tau'] * f / self.lumped
        # the latent heat is the heat of the phase change that happens in the step
        dT = -P['dt'] * self.weak(self.grad(T), None) / self.lumped + P['K'] * dp
        return p + dp, T + dT

    def solve(self, p0, T0, chi):
        n = self.n
        f = lambda v: self.implicit(v[:n], v[n:], p0, T0, chi)
        r0 = f(np.zeros(2 * n))
        A = np.stack([f(e) - r0 for e in np.eye(2 * n)], 1)
        v = np.linalg.solve(A, -r0)
        return v[:n], v[n:]


def states(p):
    L = p.max(0)
    x, y = p[:, 0] / L[0], p[:, 1] / L[1]
    # no plateau besides 0: elsewhere the gradient would be round-off and its direction arbitrary
    seed = (np.hypot(x - .4, y - .6) < .45) * (1. - .07 * x - .04 * y)
    return [(0 * x, 0 * x), (.4 + .1 * x + .2 * y, 0 * x + .3), (seed, 0 * x), (.5 + .5 * np.sin(5 * x) * np.cos(4 * y), .8 * x * y), (x, .5 * y), (y, 1. - x), (1. - x, 1.2 + 0 * x), (np.where(x < .5, 1. - .1 * y - .2 * x, 0.), np.where(y < .5, .9, 0.))]


def noises(nc):
    k = np.arange(nc)
    return [0. * k, .5 * np.sin(3. * k + 1.), np.where(k % 2, .5, -.5)]


def build(ctx, scheme, P, p, c):
    """(step, residual or None, heat) on the classes of the example"""
    import jax.numpy as jnp
    ns = apps.script(ctx, 'dendrite/%s_fem' % scheme)
    m = ns['Mesh'](p, c)
    mk = lambda cls: ns[cls](mesh=[m, m], vec=[1, 1], dim=2, ele_type=['QUAD4'] * 2, additional_info=[P])
    col = lambda a: jnp.array(a)[:, None]
    if scheme == 'implicit':
        prob = mk('Solidification')

        def step(p0, T0, chi):
            prob.set_params([col(p0), col(T0), jnp.array(chi)])
            out = ns['solver'](prob, solver_options={'spsolve_solver': {}})
            return [np.asarray(a)[:, 0] for a in out]

        def residual(v, p0, T0, chi):
            n = len(p0)
            prob.set_params([col(p0), col(T0), jnp.array(chi)])
            return np.concatenate([np.asarray(a)[:, 0] for a in prob.compute_residual([col(v[:n]), col(v[n:])])])
        return step, residual
    euler = ns['get_explicit_dynamics'](mk('SolidificationMass'), mk('SolidificationForce'))

    def step(p0, T0, chi):
        return [np.asarray(a)[:, 0] for a in euler([col(p0), col(T0)], jnp.array(chi))]
    return step, None


def check_step(R, scheme, got, p0, T0, chi, what, tol=1e-8, heat_only=False):
    want = R.solve(p0, T0, chi) if scheme == 'implicit' else R.explicit(p0, T0, chi)
    for g, w, o, nm in zip(got, want, (p0, T0), ('phase field', 'temperature')):
        s = max(np.abs(w - o).max(), 1e-6)
        if not heat_only and not np.abs(g - w).max() <= tol * max(1., np.abs(w).max()) + 1e-4 * s * (tol > 1e-8):
            raise CheckFail('%s: %s %s' % (what, nm, ref.diff(g, w)))
    heat = R.lumped @ (got[1] - T0 - R.P['K'] * (got[0] - p0))
    scale = R.lumped @ (np.abs(got[1] - T0) + np.abs(got[0] - p0)) + 1e-9
    if not abs(heat) <= max(1e-7, 100 * tol) * scale:
        raise CheckFail('%s: the step creates %g of heat' % (what, heat))


def kernel(job, ctx):
    P = par(job['par'])
    p, c = mesh(job['mesh'], P)
    R = Ref(P, p, c)
    step, residual = build(ctx, job['scheme'], P, p, c)
    n = len(p)
    for si, (p0, T0) in enumerate(states(p)):
        for ci, chi in enumerate(noises(len(c))):
            def one():
                if residual is None:
                    check_step(R, 'explicit', step(p0, T0, chi), p0, T0, chi, 'state %d' % si, 1e-10)
                    return
                for i in [-2, -1] + list(range(2 * n)):
                    v = np.zeros(2 * n) if i == -2 else np.concatenate([np.sin(1. + np.arange(n)), np.cos(2. * np.arange(n))]) if i == -1 else np.eye(2 * n)[i]
                    got, want = residual(v, p0, T0, chi), R.implicit(v[:n], v[n:], p0, T0, chi)
                    for a, b in ((got[:n], want[:n]), (got[n:], want[n:])):
                        if not np.abs(a - b).max() <= 1e-9 * max(np.abs(b).max(), 1e-6):
                            raise CheckFail('residual of new state %d: %s' % (i, ref.diff(a, b)))
                    ctx.add(states=1)
            ctx.case([si, ci], one, nontrivial=si > 1)


def history(job, ctx):
    P = par(job['par'])
    p, c = mesh(0, P)
    R = Ref(P, p, c)
    step, _ = build(ctx, job['scheme'], P, p, c)
    N = noises(len(c))

    def walk(path, st):
        new = []

        def one():
            got = step(st[0], st[1], N[path[-1]])
            check_step(R, job['scheme'], got, st[0], st[1], N[path[-1]], 'noise word %s' % path, 1e-6 if job['scheme'] == 'implicit' else 1e-10)
            new.append(got)
            ctx.add(states=1, transitions=1, traces=1)
            return 'solid fraction %.6g' % got[0].mean()
        ctx.case(path, one)
        if new and len(path) < job['depth']:
            for a in range(3):
                walk(path + [a], new[0])
    walk([job['first']], states(p)[job['state']])


# ---------------------------------------------------------------- shipped simulations
def noisy(log):
    """Stand-in for the module jax whose random.uniform is chosen by the checker."""
    def wrap(jax):
        if isinstance(jax, Proxy):
            return jax

        def uniform(key=None, shape=(), *a, **kw):
            n = int(np.prod(shape))
            v = .5 + .5 * np.sin(1. + 2.3 * np.arange(n) + 1.7 * len(log))
            log.append(v - .5)
            return jax.numpy.array(v).reshape(shape)
        return Proxy(jax, random=Proxy(jax.random, uniform=uniform))
    return wrap


class Proxy:
    def __init__(self, obj, **kw):
        self.__dict__.update(kw, _obj=obj)

    def __getattr__(self, k):
        return getattr(self._obj, k)


class Config:
    """x64 stays on"""
    def update(self, *a):
        pass


def put(P):
    def files(d):
        os.makedirs(os.path.join(d, 'input', 'json'), exist_ok=True)
        with open(os.path.join(d, 'input', 'json', 'params.json'), 'w') as f:
            json.dump(P, f)
    return files


def driver(job, ctx):
    k, scheme = job['k'], job['scheme']
    nx, ny = [(12, 10), (11, 12), (10, 10), (14, 9), (9, 12)][k]
    steps = [21, 13, 11, 24, 15][k] if scheme == 'implicit' else [120, 210, 100, 150, 330][k]
    P = par(k, nx=nx, ny=ny)
    P['dt'] = P['dt'] * (5 if scheme == 'implicit' and k % 2 == 0 else 1)
    P['t_OFF'] = P['dt'] * (steps - .5)

    def one():
        chi, log = [], []

        def wrap_solver(f):
            def g(problem, *a, **kw):
                old = [np.array(x) for x in kw.get('solver_options', {}).get('initial_guess', [])]
                out = f(problem, *a, **kw)
                log.append(('solve', [np.array(x)[:, 0] for x in out]))
                return out
            return g

        def wrap_save(f):
            def g(fe, sol, path, *a, **kw):
                log.append(('save', np.array(sol)[:, 0], int(re.findall(r'\d+', os.path.basename(path))[-1]), np.array(fe.points), np.array(fe.cells)))
                return f(fe, sol, path, *a, **kw)
            return g
        patch = dict(jax=noisy(chi), save_sol=wrap_save, config=lambda c: Config(), **(dict(solver=wrap_solver) if scheme == 'implicit' else {}))
        start = None
        if scheme == 'implicit' and not job.get('seed'):
            from jax_fem.generate_mesh import rectangle_mesh
            import jax.numpy as jnp
            q = np.asarray(rectangle_mesh(Nx=nx, Ny=ny, domain_x=nx * P['hx'], domain_y=ny * P['hy']).points)[:, :2]
            start = states(q)[[2, 3, 7, 4, 2][k]][0]
        apps.script(ctx, 'dendrite/%s_fem' % scheme, whole=True, files=put(P), patch=patch, over={} if start is None else dict(sol_p=jnp.array(start)[:, None]))
        if not log or log[0][0] != 'save' or log[0][2] != 0:
            raise CheckFail('the initial state was not saved')
        p, c = log[0][3], log[0][4]
        if not (ref.close(p.min(0), [0., 0.]) and ref.close(p.max(0), [nx * P['hx'], ny * P['hy']]) and len(c) == nx * ny and len(p) == (nx + 1) * (ny + 1)):
            raise CheckFail('the domain is not %d x %d cells of the sizes in the parameters' % (nx, ny))
        R = Ref(P, p, c)
        d2 = (p[:, 0] - nx * P['hx'] / 2) ** 2 + (p[:, 1] - ny * P['hy'] / 2) ** 2
        edge = np.abs(d2 - 20 * P['hx'] ** 2) < 1e-9
        if start is not None:
            if not np.array_equal(log[0][1], start):
                raise CheckFail('the state saved at step 0 is not the initial state')
        elif not np.array_equal(log[0][1][~edge], (d2 < 20 * P['hx'] ** 2)[~edge].astype(float)):
            raise CheckFail('the initial seed')
        pf, T = log[0][1], np.zeros(len(p))
        every = 10 if scheme == 'implicit' else 100
        i = 1
        if len(chi) != steps:
            raise CheckFail('%d steps, expected %d' % (len(chi), steps))
        for s in range(1, steps + 1):
            if scheme == 'implicit':
                if i >= len(log) or log[i][0] != 'solve':
                    raise CheckFail('step %d: no solve' % s)
                got = log[i][1]
                # from the plateau of the seed only the heat balance can be judged: the direction of the gradient is round-off there
                check_step(R, scheme, got, pf, T, chi[s - 1], 'step %d' % s, 1e-4, start is None)
                r = R.implicit(got[0], got[1], pf, T, chi[s - 1])
                if start is not None and not np.abs(r).max() <= 2e-6:
                    raise CheckFail('step %d: residual %g' % (s, np.abs(r).max()))
                pf, T = got
                i += 1
            else:
                pf, T = R.explicit(pf, T, chi[s - 1])
            if s % every == 0:
                if i >= len(log) or log[i][0] != 'save' or log[i][2] != s:
                    raise CheckFail('step %d was not saved' % s)
                if not np.abs(log[i][1] - pf).max() <= 1e-7:
                    raise CheckFail('step %d: saved phase field %s' % (s, ref.diff(log[i][1], pf)))
                i += 1
            ctx.add(states=1, transitions=1)
        if i != len(log):
            raise CheckFail('%d records, %d expected' % (len(log), i))
        ctx.add(traces=1)
        return 'solid fraction %.4g, T %.4g' % (pf.mean(), T.max())
    ctx.case([scheme, k], one, timeout=200)


def fd(job, ctx):
    k = job['k']
    n = [10, 14, 12, 9, 16][k]
    P = par(k, nx=n, ny=n)
    P['dt'] = .0001
    steps = [41, 60, 80, 100, 61][k]
    P['t_OFF'] = P['dt'] * (steps - .5)

    def one():
        shots, chi = [], []

        class Plot:
            def imshow(self, a, **kw):
                shots.append(np.array(a))

            def __getattr__(self, name):
                return lambda *a, **kw: None
        for m in ('imageio', 'imageio.v2'):
            if m not in sys.modules:
                sys.modules[m] = types.ModuleType(m)
        sys.modules['imageio'].v2 = v2 = sys.modules['imageio.v2']
        if not hasattr(v2, 'get_writer'):
            v2.get_writer, v2.imread = lambda *a, **kw: contextlib.nullcontext(Plot()), lambda f: None
        apps.script(ctx, 'dendrite/explicit_fd', whole=True, files=put(P), patch=dict(jax=noisy(chi), config=lambda c: Config(), plt=lambda m: Plot()))
        R = Ref.__new__(Ref)
        R.P = dict(P)
        i, j = np.meshgrid(np.arange(n), np.arange(n), indexing='ij')
        p = ((i - n / 2.) ** 2 + (j - n / 2.) ** 2 < 20.).astype(float)
        T = np.zeros((n, n))
        noise = chi[0].reshape(n, n)
        hx, hy, dt, J = P['hx'], P['hy'], P['dt'], P['J']

        def pad(a):
            return np.pad(a, 1, mode='edge')

        def gr(a):
            b = pad(a)
            return (b[2:, 1:-1] - b[:-2, 1:-1]) / 2 / hx, (b[1:-1, 2:] - b[1:-1, :-2]) / 2 / hy

        def lap(a):
            b = pad(a)
            return (b[2:, 1:-1] + b[:-2, 1:-1] - 2 * a) / hx ** 2 + (b[1:-1, 2:] + b[1:-1, :-2] - 2 * a) / hy ** 2

        def mirror(a):
            a = a.copy()
            a[0], a[:, 0] = a[1], a[:, 0]
            a[:, 0] = a[:, 1]
            a[-1] = a[-2]
            a[:, -1] = a[:, -2]
            return a
        want = []
        for s in range(1, steps + 1):
            gx, gy = gr(p)
            th = np.arctan2(gy, gx)
            e, de = P['eps_bar'] * (1 + P['delta'] * np.cos(J * th)), -P['eps_bar'] * J * P['delta'] * np.sin(J * th)
            div = -gr(e * de * gy)[0] + gr(e * de * gx)[1] + gr(e ** 2)[0] * gx + gr(e ** 2)[1] * gy + e ** 2 * lap(p)
            m = P['alpha'] / np.pi * np.arctan(P['gamma'] * (P['T_eq'] - T))
            new = mirror(p + dt / P['tau'] * (div + p * (1 - p) * (p - .5 + m) + P['a'] * p * (1 - p) * noise))
            T = mirror(T + dt * lap(T) + P['K'] * (new - p))
            p = new
            ctx.add(states=1, transitions=1)
            if s % 20 == 0:
                want.append(p)
        if len(shots) != len(want):
            raise CheckFail('%d pictures, expected %d' % (len(shots), len(want)))
        for a, b in zip(shots, want):
            # 1, 2: hx != hy leaves plateaus whose gradient direction is round-off
            if not np.abs(a - b).max() <= (1e-3 if k in (1, 2) else 1e-6):
                raise CheckFail('phase field %s' % ref.diff(a, b))
        ctx.add(traces=1)
        return 'solid fraction %.4g' % p.mean()
    ctx.case(['fd', k], one, timeout=120)
