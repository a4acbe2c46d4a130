"""C23: finite-strain J2 plasticity.  Model: the return-mapping automaton over (F, be_bar, alpha); every load history of the bounded alphabet is run
through the real state update, stress and assembled forces, one cell per history, and through the model."""
import itertools
import numpy as np
from mc import ref, meshes, apps
from mc.core import CheckFail

LEVEL = 'model_checking'
RULE = ('one case per load history: after every step state, Cauchy stress and nodal forces of the real code against the model automaton and against the invariants (admissible stress, irreversible plastic strain, '
        'elastic steps change nothing but the elastic strain, trace of the trial strain kept, stress and stored state belong together), and equivariance under superposed and initial rotations; '
        'solver histories: equilibrium of every converged step; non-trivial: some quadrature point yields')
BOUND = {'quick': 'all sequences of 3 increments over 10 increments (homogeneous plus hourglass part, 8 quadrature points each), 3 superposed and 2 initial rotations of each; all solver histories of 3 steps over 4 load levels',
         'thorough': 'all sequences of 4 increments over 10, the same rotations; solver histories of 4 steps over 5 levels'}
ASSUMPTIONS = ['documented material constants (K=164e3, G=80e3, H=18, sig0=400)', 'trial states within 1e-6 of the yield surface (neutral loading after a plastic step) may take either branch, with a change below 1e-10']
K, G, H, S0 = 164.e3, 80.e3, 18., 400.
R23 = np.sqrt(2. / 3.)


def _rot(axis, a):
    axis = np.asarray(axis, float) / np.linalg.norm(axis)
    k = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(a) * k + (1 - np.cos(a)) * k @ k


def _sh(i, j, g):
    f = np.eye(3)
    f[i, j] += g
    return f


ROT = _rot([1, 2, -1], .7)
INC = {'e': _sh(0, 1, 1e-4), 'p': _sh(0, 1, .02), 'r': _sh(0, 1, -.02), 'P': np.diag([1.1, 1 / np.sqrt(1.1), 1 / np.sqrt(1.1)]), 'v': 1.03 * np.eye(3), 'V': .98 * np.eye(3),
       'R': ROT, 'Q': _rot([0, 1, 3], 2.1) @ _sh(2, 0, .03), 'z': np.eye(3), 'c': np.diag([.97, 1.02, 1.]) @ _sh(1, 2, -.01)}
HG = {'p': 1e-3, 'Q': 2e-3, 'v': 1e-3, 'c': -2e-3, 'r': 1e-3}


def jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for a in INC:
        js += [dict(kind='material', pre=a, depth=3)] if q else [dict(kind='material', pre=a + b, depth=4) for b in INC]
    levels = [.004, -.003, .0015, .012] if q else [.004, -.003, .0015, .012, 0.]
    js += [dict(kind='solver', first=a, levels=levels, depth=3 if q else 4) for a in range(len(levels))]
    return js


# ---------------------------------------------------------------- the model automaton
def dev(A):
    return A - np.trace(A, axis1=-2, axis2=-1)[..., None, None] / 3. * np.eye(3)


def norm(A):
    return np.sqrt(np.sum(A * A, axis=(-2, -1)))


def model(F, st):
    """(state, Kirchhoff stress, info) for arrays of deformation gradients."""
    Fo, be, al = st
    f = F @ np.linalg.inv(Fo)
    fb = np.linalg.det(f)[..., None, None] ** (-1. / 3.) * f
    tr = fb @ be @ np.swapaxes(fb, -1, -2)
    s = G * dev(tr)
    ns = norm(s)
    phi = ns - R23 * (S0 + H * al)
    Ie = np.trace(tr, axis1=-2, axis2=-1) / 3.
    dg = np.where(phi > 0, phi / (2. * G * Ie + 2. * H / 3.), 0.)
    s2 = s * (1. - 2. * G * Ie * dg / np.where(ns > 0, ns, 1.))[..., None, None]
    be2 = np.where((phi > 0)[..., None, None], s2 / G + Ie[..., None, None] * np.eye(3), tr)
    al2 = al + R23 * dg
    J = np.linalg.det(F)
    tau = (.5 * K * (J ** 2 - 1.))[..., None, None] * np.eye(3) + G * dev(be2)
    return (F, be2, al2), tau, dict(phi=phi, trial=tr, Ie=Ie)


def run(job, ctx):
    mod = apps.load(ctx, 'finite_plasticity', 'model')
    {'material': material, 'solver': solver_histories}[job['kind']](job, ctx, mod)


def bad(ok, what, h):
    """ok: boolean per (history, quadrature point)."""
    if not np.all(ok):
        i, q = np.argwhere(~np.asarray(ok))[0]
        raise CheckFail('%s (history %s, quadrature point %d)' % (what, h[i], q))


def material(job, ctx, mod):
    import jax.numpy as jnp
    from jax_fem.generate_mesh import Mesh
    hs = [job['pre'] + ''.join(t) for t in itertools.product(INC, repeat=job['depth'] - len(job['pre']))]
    e = ref.ELE['HEX8']
    base = e['nodes'] @ np.array([[1.1, .1, 0.], [-.2, .9, .1], [.05, 0., 1.2]]).T
    n = len(hs)
    pts = np.concatenate([base + [2. * k, 0., 0.] for k in range(n)])
    cells = np.arange(8 * n).reshape(n, 8)
    prob = mod.Plasticity(Mesh(pts, cells, ele_type='HEX8'), vec=3, dim=3, ele_type='HEX8')
    sp = ref.Space('HEX8', pts, cells, 3)
    geo = sp.geometry()
    hg = np.prod(2. * e['nodes'] - 1., axis=1)[:, None] * np.array([1., -.5, .3])  # hourglass mode

    def motion(h, k, Q=None, Q0=None):
        """Nodal displacements (8, 3) of history h after step k; Q: rotation of the end state."""
        F, w = np.eye(3), 0.
        for a in h[:k + 1]:
            F = INC[a] @ F
            w += HG.get(a, 0.)
        x = base @ F.T + w * hg @ F.T
        if Q is not None:
            x = x @ Q.T
        return x - base

    def sweep(rots):
        """States, Cauchy stress, forces after each step, superposing rotation rots[k] at step k."""
        iv = prob.internal_vars0
        out = []
        for k in range(job['depth']):
            u = np.concatenate([motion(h, k, rots[k]) for h in hs])
            prob.internal_vars = iv
            Rr = np.asarray(prob.compute_residual([jnp.asarray(u)])[0]).reshape(n, 8, 3)
            sig = np.asarray(prob.compute_stress(jnp.asarray(u), iv))
            iv = prob.update_int_vars_gp(jnp.asarray(u), iv)
            out.append((u, [np.asarray(a) for a in iv], sig, Rr))
        return out
    prob.internal_vars0 = prob.internal_vars
    res = {}
    I = np.eye(3)
    sets = {'plain': [None] * job['depth'], 'spin': [_rot([1, 2, -1], .5 * (k + 1)) for k in range(job['depth'])], 'last': [None] * (job['depth'] - 1) + [_rot([0, 1, 3], 2.5)],
            'first': [_rot([3, 1, 1], 1.3)] + [None] * (job['depth'] - 1)}
    for name, rots in sets.items():
        if ctx.case(['sweep', job['pre'], name], lambda: [res.__setitem__(name, sweep(rots)), 'ok'][1], nontrivial=False, timeout=120) is None:
            return
    # model run
    mres = {}
    for name, rots in sets.items():
        st = (np.broadcast_to(I, (n, 8, 3, 3)), np.broadcast_to(I, (n, 8, 3, 3)), np.zeros((n, 8)))
        o = []
        for k in range(job['depth']):
            u = res[name][k][0].reshape(n, 8, 3)
            F = I + np.einsum('cni,cqnj->cqij', u, geo['G'])
            old = st
            st, tau, info = model(F, st)
            P = tau @ np.swapaxes(np.linalg.inv(F), -1, -2)
            f = np.einsum('cqij,cqnj,cq->cni', P, geo['G'], geo['W'])
            o.append((old, st, tau, info, f, F))
        mres[name] = o
    yields = np.zeros(n, bool)
    for k in range(job['depth']):
        yields |= (mres['plain'][k][3]['phi'] > 0).any(1)

    def one(i):
        for name, rots in sets.items():
            for k in range(job['depth']):
                u, (F, be, al), sig, fn = [a[i] if not isinstance(a, list) else [b[i] for b in a] for a in (res[name][k][0].reshape(n, 8, 3),) + res[name][k][1:]]
                old, new, tau, info, f, Fm = mres[name][k]
                old, new, tau, f, Fm = [o[i] for o in old], [o[i] for o in new], tau[i], f[i], Fm[i]
                alo = res[name][k - 1][1][2][i] if k else np.zeros(8)
                beo = res[name][k - 1][1][1][i] if k else np.broadcast_to(I, (8, 3, 3))
                w = ' in step %d of history %s (%s)' % (k, hs[i], name)
                fin = all(np.all(np.isfinite(a)) for a in (F, be, al, sig, fn))
                if not fin:
                    raise CheckFail('non-finite result' + w)
                if not ref.close(F, Fm, 1e-11, 1e-11):
                    raise CheckFail('stored deformation gradient' + w)
                J = np.linalg.det(F)
                s = dev(sig * J[:, None, None])
                rad = R23 * (S0 + H * al)
                if not np.all(norm(s) <= rad * (1 + 1e-9) + 1e-6):
                    raise CheckFail('stress outside the yield surface%s: %s > %s' % (w, norm(s).max(), rad.max()))
                if np.any(al < alo - 1e-13):
                    raise CheckFail('accumulated plastic strain decreased' + w)
                # trial state from the stored real state
                fr = F @ np.linalg.inv(res[name][k - 1][1][0][i] if k else np.broadcast_to(I, (8, 3, 3)))
                fb = np.linalg.det(fr)[:, None, None] ** (-1. / 3.) * fr
                tr = fb @ beo @ np.swapaxes(fb, -1, -2)
                phi = norm(G * dev(tr)) - R23 * (S0 + H * alo)
                el = phi < -1e-6
                if np.any((al - alo)[phi < 1e-6] > 1e-10):
                    raise CheckFail('plastic strain accumulated in neutral loading' + w)
                if not np.all(np.abs(al - alo)[el] <= 0):
                    raise CheckFail('plastic strain accumulated although the trial state is elastic' + w)
                if not np.all(np.abs(be - tr)[el] <= 1e-11):
                    raise CheckFail('elastic step does not store the trial elastic strain' + w)
                pl = phi > 1e-6
                if np.any(al[pl] <= alo[pl]):
                    raise CheckFail('no plastic strain accumulated although the trial state yields' + w)
                if not np.all(np.abs(norm(s) - rad)[pl] <= 1e-6):
                    raise CheckFail('plastic step ends off the yield surface' + w)
                if not np.all(np.abs(np.trace(be - tr, axis1=1, axis2=2)) <= 1e-11):
                    raise CheckFail('trace of the elastic isochoric strain changed by the return mapping' + w)
                # stress of the step belongs to the stored state
                tau2 = (.5 * K * (J ** 2 - 1.))[:, None, None] * I + G * dev(be)
                if not ref.close(sig * J[:, None, None], tau2, 1e-10, 1e-6):
                    raise CheckFail('stress of the step is not the stress of the stored state%s: %s' % (w, ref.diff(sig * J[:, None, None], tau2)))
                for what, a, b, tol in (('elastic strain', be, new[1], 1e-10), ('plastic strain', al, new[2], 1e-10), ('Kirchhoff stress', sig * J[:, None, None], tau, 1e-6), ('nodal forces', fn, f, 1e-6)):
                    if not ref.close(a, b, 1e-9, tol):
                        raise CheckFail('%s%s: %s' % (what, w, ref.diff(a, b)))
                if name != 'plain':
                    Q = I if rots[k] is None else rots[k]
                    _, (_, be0, al0), sig0, f0 = [a[i] if not isinstance(a, list) else [b[i] for b in a] for a in (res['plain'][k][0].reshape(n, 8, 3),) + res['plain'][k][1:]]
                    for what, a, b, tol in (('elastic strain', be, Q @ be0 @ Q.T, 1e-9), ('plastic strain', al, al0, 1e-9), ('Cauchy stress', sig, Q @ sig0 @ Q.T, 1e-5), ('nodal forces', fn, f0 @ Q.T, 1e-5)):
                        if not ref.close(a, b, 1e-8, tol):
                            raise CheckFail('%s does not rotate with the material%s: %s' % (what, w, ref.diff(a, b)))
        return 'yields' if yields[i] else 'elastic'
    for i, h in enumerate(hs):
        ctx.outcome(ctx.case(['history', h], lambda: one(i), nontrivial=bool(yields[i])))
        ctx.add(states=job['depth'] * 8, transitions=job['depth'] * 8, traces=4)
    isotropy(job, ctx, mod, hs, prob, n, base, hg, mres, res)


def isotropy(job, ctx, mod, hs, prob, n, base, hg, mres, res):
    """Rotating the undeformed body and applying the same spatial deformation leaves Kirchhoff stress and elastic strain unchanged."""
    import jax.numpy as jnp
    from jax_fem.generate_mesh import Mesh
    for m, Q in enumerate((_rot([1, 0, 0], np.pi / 2), _rot([2, -1, 1], 1.1))):
        def f():
            pts = np.concatenate([base @ Q.T for _ in range(n)])
            p2 = mod.Plasticity(Mesh(pts, np.arange(8 * n).reshape(n, 8), ele_type='HEX8'), vec=3, dim=3, ele_type='HEX8')
            iv = p2.internal_vars
            for k in range(job['depth']):
                x = res['plain'][k][0].reshape(n, 8, 3) + base
                u = (x - base @ Q.T).reshape(-1, 3)
                sig = np.asarray(p2.compute_stress(jnp.asarray(u), iv))
                iv = p2.update_int_vars_gp(jnp.asarray(u), iv)
                for what, a, b, tol in (('Cauchy stress', sig, res['plain'][k][2], 1e-5), ('elastic strain', np.asarray(iv[1]), res['plain'][k][1][1], 1e-9), ('plastic strain', np.asarray(iv[2]), res['plain'][k][1][2], 1e-9)):
                    d = np.abs(a - b).reshape(n, -1).max(1)
                    if not np.all(d <= tol + 1e-8 * np.abs(b).max()):
                        raise CheckFail('%s depends on the initial orientation of an isotropic material: history %s, step %d, difference %g' % (what, hs[int(np.argmax(d))], k, d.max()))
            return 'ok'
        ctx.case(['isotropy', job['pre'], m], f, timeout=120)


# ---------------------------------------------------------------- histories of converged solves
def solver_histories(job, ctx, mod):
    import jax.numpy as jnp
    from jax_fem.generate_mesh import Mesh
    from jax_fem.solver import solver
    pts, cells = meshes.mesh('HEX8', [1, 1, 2])
    zt = np.abs(pts[:, 2] - 2.) < 1e-9
    zt = np.abs(pts[:, 2] - pts[:, 2].max()) < 1e-9
    zb = np.abs(pts[:, 2]) < 1e-9
    # an irregular interior so that the stress is not uniform
    pts = pts + .05 * np.sin(3. * pts[:, :1] + 2. * pts[:, 1:2] + 4. * pts[:, 2:]) * (~zt & ~zb)[:, None]
    on = [np.where(zb)[0], np.where(zt)[0], np.where(zb & (pts[:, 0] < 1e-9) & (pts[:, 1] < 1e-9))[0], np.where(zb & (pts[:, 0] > .9) & (pts[:, 1] < 1e-9))[0]]
    spec = [(on[0], 2), (on[1], 2), (on[2], 0), (on[2], 1), (on[3], 1)]
    load = [0.]
    sel = lambda i: (lambda p, ind: jnp.isin(ind, i))
    prob = mod.Plasticity(Mesh(pts, cells, ele_type='HEX8'), vec=3, dim=3, ele_type='HEX8',
                          dirichlet_bc_info=[[sel(i) for i, _ in spec], [c for _, c in spec], [(lambda p: 0.), (lambda p: 0.)] + [lambda p: 0.] * 3])
    iv0 = prob.internal_vars
    sp = ref.Space('HEX8', pts, cells, 3)
    geo = sp.geometry()
    fixed = np.concatenate([i * 3 + c for i, c in spec])

    def f(seq):
        iv, u = iv0, np.zeros((len(pts), 3))
        ys = 0
        st = tuple(np.asarray(a) for a in iv0)
        for k, l in enumerate(seq):
            prob.fes[0].vals_list[1] = jnp.full(len(on[1]), job['levels'][l])
            prob.internal_vars = iv
            sol = solver(prob, {'spsolve_solver': {}, 'initial_guess': [jnp.asarray(u)], 'tol': 1e-7, 'rel_tol': 1e-12})
            u = np.asarray(sol[0])
            sig = np.asarray(prob.compute_stress(sol[0], iv))
            iv = prob.update_int_vars_gp(sol[0], iv)
            F = np.eye(3) + np.einsum('cni,cqnj->cqij', u[cells], geo['G'])
            st, tau, info = model(F, st)
            ys += int((info['phi'] > 0).sum())
            P = tau @ np.swapaxes(np.linalg.inv(F), -1, -2)
            r = np.zeros((len(pts), 3))
            np.add.at(r, cells, np.einsum('cqij,cqnj,cq->cni', P, geo['G'], geo['W']))
            r = r.reshape(-1)
            free = np.setdiff1d(np.arange(r.size), fixed)
            if not np.abs(r[free]).max() <= 1e-5:
                raise CheckFail('step %d: forces out of balance by %g at free nodes (model stress)' % (k, np.abs(r[free]).max()))
            if not np.abs(u.reshape(-1)[on[1] * 3 + 2] - job['levels'][l]).max() <= 1e-9:
                raise CheckFail('step %d: prescribed displacement not reached' % k)
            for what, a, b, tol in (('elastic strain', np.asarray(iv[1]), st[1], 1e-8), ('plastic strain', np.asarray(iv[2]), st[2], 1e-8), ('stress', sig, tau / np.linalg.det(F)[..., None, None], 1e-3)):
                if not ref.close(a, b, 1e-7, tol):
                    raise CheckFail('step %d: %s: %s' % (k, what, ref.diff(a, b)))
        ctx.add(traces=1, transitions=len(seq))
        return 'yielded points %d, alpha %.4g' % (ys, st[2].max())
    for t in itertools.product(range(len(job['levels'])), repeat=job['depth'] - 1):
        seq = (job['first'],) + t
        ctx.case(['solver', seq], lambda: f(seq))
