"""C33: gradients of the shipped inverse and sensitivity examples.  The scripts run as a whole on enumerated load histories, meshes and parameters;
every gradient they compute is intercepted together with the function they differentiate and compared with independent derivatives."""
import itertools
import os
import re
import types
import numpy as np
import meshio
from mc import ref, meshes, apps
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('crystal, volume: one case per load history (word over loading, holding, unloading), the script run as a whole; mesh, inverse: one case per mesh and parameter field, all components of the gradient compared; '
        'non-trivial: the derivative is not zero')
BOUND = {'quick': 'crystal: 2 words of length 2 and 3; volume: 4 words; mesh: 2 meshes with all node coordinates; inverse: 2 meshes x 2 density fields, all components',
         'thorough': 'all 9 words of length 2 and 27 of length 3 for both crystal scripts; 4 meshes; 4 density fields'}
ASSUMPTIONS = ['one time increment per crystal history (the adjoint of a step is evaluated with the time increment the problem holds at that moment)',
               'load histories avoid exactly zero resolved shear rates, where the flow rule has no second derivative']


def jobs(tier, seed):
    q = tier == 'quick'
    W2, W3 = [list(w) for w in itertools.product((0, 1, 2), repeat=2)], [list(w) for w in itertools.product((0, 1, 2), repeat=3)]
    js = [dict(kind='crystal', word=w) for w in ([W2[2], W3[2]] if q else W2 + W3)]
    js += [dict(kind='volume', word=w) for w in ([W2[0], W2[1], W2[2], W3[5]] if q else W2 + W3)]
    js += [dict(kind='mesh', k=k) for k in range(2 if q else 4)]
    js += [dict(kind='inverse', k=k, rho=r) for k in range(2) for r in range(2 if q else 4)]
    return js


def run(job, ctx):
    globals()[job['kind']](job, ctx)


class Proxy:
    def __init__(self, obj, **kw):
        self.__dict__.update(kw, _obj=obj)

    def __getattr__(self, k):
        return getattr(self._obj, k)


def spy(log):
    """the module jax with grad and value_and_grad that record what they are asked for"""
    def wrap(jax):
        def grad(f, *a, **kw):
            g = jax.grad(f, *a, **kw)

            def call(*x, **k):
                out = g(*x, **k)
                log.append((f, x, out))
                return out
            return call

        def value_and_grad(f, *a, **kw):
            g = jax.value_and_grad(f, *a, **kw)

            def call(*x, **k):
                out = g(*x, **k)
                log.append((f, x, out))
                return out
            return call
        return Proxy(jax, grad=grad, value_and_grad=value_and_grad)
    return wrap


def derivative(f, x, h):
    """central differences extrapolated once, and an error estimate"""
    d = [(float(f(x + s)) - float(f(x - s))) / (2 * s) for s in (h, h / 2)]
    return (4 * d[1] - d[0]) / 3, abs(d[1] - d[0]) / 3


def shape(word, step):
    d = [0.]
    for w in word:
        d.append(d[-1] + (step, 0., -.6 * step)[w])
    return np.array(d)


def cube(k):
    p, c = meshes.mesh('HEX8', [[1, 1, 1], [1, 1, 2]][k % 2])
    return p / p.max(0), np.asarray(c)


# ---------------------------------------------------------------- crystal plasticity
def crystal(job, ctx):
    drive(job, ctx, 'stress_sensitivity', .0015, .15, 1e-3, 1e-7)


def volume(job, ctx):
    drive(job, ctx, 'volume_sensitivity', .0008, .05, 1e-3, 1e-10)


def drive(job, ctx, name, step, dt, h, small):
    word = job['word']
    if word[0] != 0:
        word = [0] + word

    def one():
        import jax.numpy as jnp
        p, c = cube(len(word))
        log = []
        n = len(word)
        quiet = lambda f: lambda *a, **kw: None
        apps.script(ctx, 'crystal_plasticity', name, whole=True, over=dict(num_steps=n, disps=jnp.array(shape(word, step)), ts=jnp.array(dt * np.arange(n + 1))),
                    patch=dict(jax=spy(log), box_mesh_gmsh=lambda f: lambda *a, **kw: meshio.Mesh(p, {'hexahedron': c}), save_sol=quiet, plt=lambda m: Mute()),
                    files=lambda d: moose(d, n))
        if len(log) != 1:
            raise CheckFail('%d gradients' % len(log))
        f, (x,), g = log[0]
        want, err = derivative(f, float(x), h)
        if not abs(float(g) - want) <= 10 * err + 2e-4 * abs(want) + small:
            raise CheckFail('gradient %.9g, differences give %.9g (+- %.2g)' % (float(g), want, err))
        ctx.add(states=n, transitions=n, traces=1)
        return 'gradient %.6g, off by %.1g, differences good to %.1g' % (float(g), abs(float(g) - want), err)
    ctx.case([job['kind'], word], one, timeout=600)


def moose(d, n):
    os.makedirs(os.path.join(d, 'input', 'stress_sensitivity'), exist_ok=True)
    np.savetxt(os.path.join(d, 'input', 'stress_sensitivity', 'moose_reference.csv'), np.ones((n, 7)), delimiter=',')


class Mute:
    def __getattr__(self, k):
        return lambda *a, **kw: (Mute(), Mute())

    def __call__(self, *a, **kw):
        return Mute()


# ---------------------------------------------------------------- node coordinates
def mesh(job, ctx):
    k = job['k']

    def one():
        n = [[3, 3], [4, 2], [2, 5], [4, 4]][k]
        p, c = meshes.mesh('QUAD4', n)
        inner = np.all((p > 1e-9) & (p < 1 - 1e-9), axis=1)
        p = p + np.where(inner[:, None], .06 * np.stack([np.sin(7 * p[:, 0] + k), np.cos(5 * p[:, 1])], 1), 0.)
        c = meshes.rotate_cells('QUAD4', np.asarray(c), [0, 3, 1])
        log = []
        apps.script(ctx, 'differentiable_mesh', whole=True, packages=[], over={}, patch=dict(
            jax=spy(log), rectangle_mesh=lambda f: lambda *a, **kw: meshio.Mesh(p, {'quad': c}), save_sol=lambda f: lambda *a, **kw: None))
        if len(log) != 1:
            raise CheckFail('%d gradients' % len(log))
        f, (pts,), ((val, sols), g) = log[0]
        g = np.asarray(g)
        if g.shape != p.shape or not np.allclose(np.asarray(pts), p):
            raise CheckFail('gradient of shape %s' % (g.shape,))
        s = ref.Space('QUAD4', p, c, 1)

        def vol(xp, us, gs, x, ivs):
            e = np.sin(np.pi * x[..., 0]) * (1 + x[..., 1])
            return [(gs[0], us[0] ** 3 - (np.pi ** 2 * e + e ** 3)[..., None])]
        faces = [(a, b) for a, b in ref.all_faces('QUAD4', c) if all(abs(p[i, 1]) < 1e-3 for i in ref.face_vertices('QUAD4', c, a, b))]
        R = ref.RefModel([s], vol, [(faces, lambda xp, us, gs, x, ivs: [np.sin(np.pi * x[..., 0])[..., None]])])
        side = lambda d, v: np.where(np.abs(p[:, d] - v) < 1e-5)[0]
        bc = [(side(0, 0.), 0. * side(0, 0.)), (side(0, 1.), 0. * side(0, 1.)), (side(1, 1.), 2 * np.sin(np.pi * p[side(1, 1.), 0]))]
        u = np.asarray(sols[0]).reshape(-1)
        r = R.imposed(u, bc)
        if not np.linalg.norm(r) < 1e-5:
            raise CheckFail('residual %g' % np.linalg.norm(r))
        if not abs(float(val) - np.sum(u ** 2)) < 1e-12 * (1 + np.sum(u ** 2)):
            raise CheckFail('objective %g' % val)
        u = R.newton(bc, u0=u)
        lam = np.linalg.solve(R.imposed_jacobian(u, bc).T, 2 * u)
        want = np.zeros_like(p)
        fix = np.concatenate([d for d, _ in bc])
        for i in range(len(p)):
            for d in range(2):
                q = p.astype(complex)
                q[i, d] += 1e-30j
                R.set_points([q])
                dr = R.residual(u.astype(complex)).imag / 1e-30
                dr[fix] = 0.
                want[i, d] = -lam @ dr
                ctx.add(states=1)
        R.set_points(None)
        if not ref.close(g, want, 2e-5, 1e-6):
            raise CheckFail('gradient %s' % ref.diff(g, want))
        return 'max gradient %.4g' % np.abs(g).max()
    ctx.case(['mesh', k], one, timeout=500)


# ---------------------------------------------------------------- densities
def inverse(job, ctx):
    k = job['k']

    def one():
        n = [(2, 1, 1), (1, 2, 2)][k]
        log, probs = [], []
        r = [.5, .8, .35, .65][job['rho']]

        def wrap(f):
            def g(problem, *a, **kw):
                # the Krylov solver of the script breaks down on meshes of two cells
                probs.append(problem)
                return f(problem, solver_options={'spsolve_solver': {}}, adjoint_solver_options={'spsolve_solver': {}})
            return g
        apps.script(ctx, 'scalability', 'example_inverse_timing', whole=True, over=dict(Nx=n[0], Ny=n[1], Nz=n[2], RHO=r if job['rho'] < 1 else Field(r), TIMING_WARMUP=1, TIMING_REPEATS=1),
                    patch=dict(jax=spy(log), ad_wrapper=wrap), packages=[])
        f, (rho,), (J, g) = log[0]
        rho, g = np.asarray(rho), np.asarray(g)
        for _, (b,), (J2, g2) in log[1:]:
            if not ref.close(np.asarray(g2), g, 1e-9, 1e-12) or abs(float(J2) - float(J)) > 1e-9 * abs(float(J)):
                raise CheckFail('repeated evaluations differ')
        p, c = meshes.mesh('HEX8', n)
        p, c = p / p.max(0), np.asarray(c)
        s = ref.Space('HEX8', p, c, 3)
        if rho.shape != s.geometry()['W'].shape:
            raise CheckFail('densities of shape %s' % (rho.shape,))

        def vol(xp, us, gs, x, ivs):
            E = 10. * ivs[0]
            mu, ka = (E / 2.6)[..., None, None], (E / 1.2)[..., None, None]
            F = gs[0] + np.eye(3)
            Jd = np.linalg.det(F)[..., None, None]
            inv = np.swapaxes(np.linalg.inv(F), -1, -2)
            I1 = np.sum(F * F, axis=(-1, -2))[..., None, None]
            return [(mu * np.exp(-2. / 3 * np.log(Jd)) * (F - I1 / 3 * inv) + ka * (Jd - 1) * Jd * inv, None)]
        faces = [(a, b) for a, b in ref.all_faces('HEX8', c) if all(abs(p[i, 1] - 1) < 1e-5 for i in ref.face_vertices('HEX8', c, a, b))]
        R = ref.RefModel([s], vol, [(faces, lambda xp, us, gs, x, ivs: [0 * us[0] + np.array([0., 1e-3, 0.])])])
        lft, rgt = np.where(np.abs(p[:, 0]) < 1e-5)[0], np.where(np.abs(p[:, 0] - 1) < 1e-5)[0]
        bc = [(3 * lft + i, 0. * lft) for i in range(3)] + [(3 * rgt, .02 + 0. * rgt), (3 * rgt + 1, 0. * rgt), (3 * rgt + 2, 0. * rgt)]
        prob = probs[0]
        u = R.newton(bc, ivs=[perm(rho, prob, R, p, c)])
        if not abs(float(J) - np.sum(u ** 2)) <= 1e-5 * np.sum(u ** 2):
            raise CheckFail('objective %.9g instead of %.9g' % (float(J), np.sum(u ** 2)))
        iv = perm(rho, prob, R, p, c)
        lam = np.linalg.solve(R.imposed_jacobian(u, bc, [iv]).T, 2 * u)
        fix = np.concatenate([d for d, _ in bc]).astype(int)
        want = np.zeros(iv.size)
        for i in range(iv.size):
            z = iv.astype(complex).reshape(-1)
            z[i] += 1e-30j
            dr = R.residual(u.astype(complex), [z.reshape(iv.shape)]).imag / 1e-30
            dr[fix] = 0
            want[i] = -lam @ dr
            ctx.add(states=1)
        got = perm(g, prob, R, p, c)
        if not ref.close(got.reshape(-1), want, 1e-4, 1e-8):
            raise CheckFail('gradient %s' % ref.diff(got.reshape(-1), want))
        return 'max gradient %.4g' % np.abs(g).max()
    ctx.case(['inverse', k, job['rho']], one, timeout=500)


class Field(float):
    """RHO * ones(...) becomes a field that differs at every point"""
    __array_priority__ = 1e6

    def __mul__(self, a):
        import jax.numpy as jnp
        v = np.asarray(a)
        return jnp.array(float(self) * (1 + .3 * np.sin(1. + 2.1 * np.arange(v.size))).reshape(v.shape))


def perm(a, prob, R, p, c):
    """field at the code's quadrature points -> the same field in the order of the reference"""
    x = np.asarray(prob.physical_quad_points)
    y = R.geo[0]['x']
    n = y.shape[-1]
    d = np.abs(x.reshape(-1, 1, n) - y.reshape(1, -1, n)).max(-1)
    assert d.min(0).max() < 1e-9
    return np.asarray(a).reshape(-1)[d.argmin(0)].reshape(y.shape[:2])
