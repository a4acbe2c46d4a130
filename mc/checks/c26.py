"""C26: phase-field fracture.  Explicit-state exploration of load histories on the real staggered scheme; the reference keeps the largest
tensile energy ever reached and recomputes energies, stresses, equilibrium, damage and tractions with numpy."""
import itertools
import os
import numpy as np
from mc import ref, meshes, apps
from mc.core import CheckFail

LEVEL = 'model_checking'
RULE = ('law: one case per strain of the alphabet (tensile energy, degraded stress and its tangent against an independent spectral split); history: one case per node of the tree of load histories, driven through the '
        'classes; driver: one case per load schedule, with the shipped script executed as a whole; non-trivial: some strain or load is not zero')
BOUND = {'quick': 'all 2x2 displacement gradients over {-1,0,1}x3 scales x 3 damage values; all load histories of depth 3 over 4 loads on 2 meshes; 12 schedules of the shipped driver',
         'thorough': 'depth 4 over 5 loads on 4 meshes; all 64 schedules of length 3 over 4 loads of the driver'}
ASSUMPTIONS = ['plane small strain, the shipped parameters; the tiny regularising perturbation of the strain (1e-8) is inside the tolerances']

LOADS = [0., .02, .04, -.03, .07]


def mesh(name):
    if name == 'grid':
        p, c = meshes.mesh('QUAD4', [2, 2])
        p = p + np.where(np.all(np.isclose(p, .5), axis=1), 1., 0.)[:, None] * np.array([[.1, .07]])
    elif name == 'notch':
        p, c = meshes.mesh('QUAD4', [3, 3])
        c = np.delete(c, 1, axis=0)
    elif name == 'turned':
        p, c = meshes.mesh('QUAD4', [3, 2])
        c = meshes.rotate_cells('QUAD4', c, [1, 0, 3, 2])
        c = c[::-1]
    else:  # a slit: nodes of the crack faces are doubled
        p, c = meshes.mesh('QUAD4', [2, 2])
        left = int(np.argmin(np.linalg.norm(p - [0., .5], axis=1)))
        p = np.vstack([p, p[left]])
        cent = p[c].mean(1)
        for i in range(len(c)):
            if cent[i, 0] < .5 and cent[i, 1] > .5:
                c[i][c[i] == left] = len(p) - 1
    return p - .5, np.array(c)


def jobs(tier, seed):
    q = tier == 'quick'
    js = [dict(kind='law')]
    loads = LOADS[:4] if q else LOADS
    for m in ['grid', 'slit'] if q else ['grid', 'slit', 'notch', 'turned']:
        for a in range(len(loads)):
            js.append(dict(kind='history', mesh=m, first=a, loads=len(loads), depth=3 if q else 4))
    sched = [list(s) for s in itertools.product(range(4), repeat=3)]
    if q:
        sched = [[1, 2, 1], [2, 1, 3], [1, 0, 2], [3, 1, 2], [2, 2, 2], [0, 2, 0], [2, 3, 1], [1, 1, 0], [3, 3, 1], [0, 1, 2], [2, 0, 0], [1, 3, 2]]
    for k, s in enumerate(sched):
        js.append(dict(kind='driver', sched=[s], mesh=['grid', 'notch', 'slit'][k % 3]))
    js.sort(key=lambda j: {'history': 0, 'driver': 1, 'law': 2}[j['kind']])
    return js


# ---------------------------------------------------------------- reference
class Ref:
    def __init__(self, ns, p, c):
        E, nu = ns['E'], ns['nu']
        self.mu, self.lam, self.Gc, self.l = E / (2. * (1. + nu)), E * nu / ((1 + nu) * (1 - 2 * nu)), ns['G_c'], ns['l']
        self.p, self.c = p, c
        self.su, self.sd = ref.Space('QUAD4', p, c, 2), ref.Space('QUAD4', p, c, 1)
        self.mu_model = ref.RefModel([self.su], lambda xp, us, gs, x, ivs: [(self.stress(gs[0], ivs[0]), None)])
        self.md_model = ref.RefModel([self.sd], lambda xp, us, gs, x, ivs: [(self.Gc * self.l * gs[0], self.Gc / self.l * us[0] - 2. * (1. - us[0]) * ivs[0][..., None])])

    def split(self, g):
        e = .5 * (g + np.swapaxes(g, -1, -2))
        w, V = np.linalg.eigh(e)
        pos = np.einsum('...ik,...k,...jk->...ij', V, np.maximum(w, 0.), V)
        return e, w, pos, e - pos

    def psi_plus(self, g):
        e, w, _, _ = self.split(g)
        return self.lam / 2 * np.maximum(np.trace(e, axis1=-2, axis2=-1), 0.) ** 2 + self.mu * np.sum(np.maximum(w, 0.) ** 2, -1)

    def stress(self, g, d):
        e, w, pos, neg = self.split(g)
        tr = np.trace(e, axis1=-2, axis2=-1)
        deg = (1. - d) ** 2
        I = np.eye(2)
        return (deg * self.lam * np.maximum(tr, 0.) + self.lam * np.minimum(tr, 0.))[..., None, None] * I + 2 * self.mu * (deg[..., None, None] * pos + neg)

    def grads(self, u):
        return np.einsum('cqnd,cnv->cqvd', self.mu_model.geo[0]['G'], u[self.c])

    def at_quads(self, d):
        return np.einsum('qn,cnv->cqv', self.sd.N, d[self.c])[..., 0]

    def traction(self, u, d):
        """Integral of stress times (0, 1) over the faces on the top edge."""
        faces = [(k, f) for k, f in ref.all_faces('QUAD4', self.c) if np.all(np.isclose(self.p[list(ref.face_vertices('QUAD4', self.c, k, f)), 1], .5))]
        fg = self.su.face_geometry(faces)
        ci = np.array([k for k, _ in faces])
        g = np.einsum('fqnd,fnv->fqvd', fg['G'], u[self.c][ci])
        dq = np.einsum('fqn,fnv->fqv', fg['N'], d[self.c][ci])[..., 0]
        return np.einsum('fqi,fq->i', self.stress(g, dq)[..., 1], fg['W'])

    # ---- requirements on solutions
    def check_u(self, u, d, disp, what):
        u, d = np.asarray(u), np.asarray(d)
        y, x = self.p[:, 1], self.p[:, 0]
        bot, top = np.isclose(y, -.5), np.isclose(y, .5)
        fixed = np.zeros(u.shape, bool)
        fixed[bot, 1] = fixed[top, 1] = True
        fixed[bot & np.isclose(x, -.5), 0] = True
        want = np.zeros(u.shape)
        want[top, 1] = disp
        if not np.allclose(u[fixed], want[fixed], rtol=0, atol=1e-6 + 1e-6 * abs(disp)):
            raise CheckFail('%s: displacement at the loaded and supported nodes is %s, wanted %s' % (what, u[fixed], want[fixed]))
        r = self.mu_model.residual(u.reshape(-1), [self.at_quads(d)]).reshape(u.shape)
        if not np.all(np.abs(r[~fixed]) < 2e-5):
            raise CheckFail('%s: displacement is not in equilibrium with the degraded stress: residual %g' % (what, np.abs(r[~fixed]).max()))

    def check_d(self, d, H, what):
        r = self.md_model.residual(np.asarray(d).reshape(-1), [np.asarray(H)])
        if not np.all(np.abs(r) < 2e-6):
            raise CheckFail('%s: damage does not solve its equation for the stored energy: residual %g' % (what, np.abs(r).max()))

    def check_H(self, H, u, H_old, what):
        want = np.maximum(self.psi_plus(self.grads(np.asarray(u))), H_old)
        if not ref.close(np.asarray(H), want, 1e-9, 1e-13):
            raise CheckFail('%s: the stored energy is not the largest tensile energy reached so far: %s' % (what, ref.diff(H, want)))
        if not np.all(np.asarray(H) >= H_old - 1e-14):
            raise CheckFail('%s: the stored energy decreased' % what)


def setup(ctx, name, over=None, patch=None, whole=False):
    p, c = mesh(name)

    def files(here):
        np.savez(os.path.join(here, 'input', 'mesh.npz'), points=p, cells=c)
    return apps.script(ctx, 'phase_field_fracture', over=over, patch=dict(plt=lambda m: Mute(), **(patch or {})), files=files, whole=whole), p, c


class Mute:
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Mute()

    def __call__(self, *a, **k):
        return Mute()

    def __setitem__(self, k, v):
        pass


def run(job, ctx):
    {'law': law, 'history': history, 'driver': driver}[job['kind']](job, ctx)


def law(job, ctx):
    import jax
    import jax.numpy as jnp
    ns, p, c = setup(ctx, 'grid')
    R = Ref(ns, p, c)
    psi, stress = ns['problem_u'].get_maps()
    vpsi, vst = jax.jit(jax.vmap(psi)), jax.jit(jax.vmap(stress))
    vtan = jax.jit(jax.vmap(jax.jacfwd(stress)))
    al = [np.array(a, float).reshape(2, 2) for a in itertools.product([-1, 0, 1], repeat=4)]
    al += [np.array(a, float).reshape(2, 2) for a in [[2, 1, 0, -1], [1, 3, -1, 1], [-2, 1, 1, -.5], [.3, .2, .1, -.7]]]
    for scale in [1e-5, 1e-3, 1e-1]:
        g = np.array(al) * scale
        P = np.asarray(vpsi(jnp.array(g)))
        for d in [0., .35, 1.]:
            S = np.asarray(vst(jnp.array(g), jnp.full((len(g), 1), d)))
            T = np.asarray(vtan(jnp.array(g), jnp.full((len(g), 1), d)))
            W = R.stress(g, np.full(len(g), d))
            for k in range(len(g)):
                def one(k=k):
                    if not abs(P[k] - R.psi_plus(g[k])) <= 1e-9 * R.mu * scale ** 2 + 1e-15:
                        raise CheckFail('tensile energy %g, expected %g' % (P[k], R.psi_plus(g[k])))
                    if not np.all(np.abs(S[k] - W[k]) < 1e-9 * R.mu * scale + 1e-7 * R.mu):
                        raise CheckFail('stress %s, expected %s' % (S[k].tolist(), W[k].tolist()))
                    if not np.all(np.isfinite(T[k])):
                        raise CheckFail('tangent is not finite')
                    e, w, _, _ = R.split(g[k])
                    if min(abs(w[0] - w[1]), abs(w[0]), abs(w[1]), abs(np.trace(e))) > .02 * scale and scale > 1e-4:
                        h = 1e-6 * scale
                        fd = np.zeros((2, 2, 2, 2))
                        for i in range(2):
                            for j in range(2):
                                dg = np.zeros((2, 2))
                                dg[i, j] = h
                                fd[:, :, i, j] = (R.stress(g[k] + dg, np.array(d)) - R.stress(g[k] - dg, np.array(d))) / (2 * h)
                        if not ref.close(T[k], fd, 1e-3, 1e-3 * R.mu * 1e-2):
                            raise CheckFail('tangent is not the derivative of the stress: %s' % ref.diff(T[k], fd))
                        return 'tangent'
                    return 'degenerate'
                ctx.outcome(ctx.case(['law', scale, d, k], one, nontrivial=bool(np.any(g[k]))))


def stagger(ns, R, state, disp, what):
    """One load step through the classes, as the example does it, with every intermediate state checked."""
    u, d, H_old = state
    for it in range(80):
        ns['problem_u'].set_params([d, disp])
        u2 = np.asarray(ns['solver'](ns['problem_u'], solver_options={'spsolve_solver': {}})[0])
        R.check_u(u2, d, disp, what)
        H = np.asarray(ns['problem_u'].compute_history(u2, H_old))
        R.check_H(H, u2, H_old, what)
        ns['problem_d'].set_params(H)
        d2 = np.asarray(ns['solver'](ns['problem_d'], solver_options={'spsolve_solver': {}})[0])
        R.check_d(d2, H, what)
        done = np.abs(d2 - d).max() < 1e-5
        u, d = u2, d2
        if done:
            return u, d, H, it + 1
    raise CheckFail(what + ': the alternate minimisation did not settle in 80 sweeps')


def history(job, ctx):
    ns, p, c = setup(ctx, job['mesh'])
    R = Ref(ns, p, c)
    nq = ns['problem_u'].fes[0].num_quads

    def walk(path, state):
        def one():
            disp = LOADS[path[-1]]
            what = 'load history %s' % [LOADS[a] for a in path]
            u, d, H, n = stagger(ns, R, state, disp, what)
            t = np.asarray(ns['problem_u'].compute_traction(ns['top'], u, d))
            w = R.traction(u, d)
            if not np.allclose(t, w, rtol=1e-6, atol=1e-5):
                raise CheckFail('%s: traction on the top edge %s, expected %s' % (what, t, w))
            if not np.any(H > state[2]):
                ctx.outcome('no growth')
                if np.abs(d - state[1]).max() > 1e-8 and len(path) > 1:
                    raise CheckFail(what + ': damage changed although the stored energy did not')
            else:
                ctx.outcome('growth')
            ctx.add(states=1, transitions=n, traces=1)
            return u, d, H
        out = ctx.case(path, one, nontrivial=any(LOADS[a] for a in path), timeout=120)
        if out is not None and len(path) < job['depth']:
            for a in range(job['loads']):
                walk(path + [a], out)
    walk([job['first']], (np.zeros((len(p), 2)), np.zeros((len(p), 1)), np.zeros((len(c), nq))))


def driver(job, ctx):
    for sched in job['sched']:
        ctx.case(sched, lambda: drive(ctx, job, [LOADS[a] for a in sched]), nontrivial=True, timeout=240)


def drive(ctx, job, loads):
    log = []

    def wrap_solver(f):
        def g(problem, *a, **k):
            iv = [np.array(v) for v in problem.internal_vars]
            out = f(problem, *a, **k)
            log.append((type(problem).__name__, iv, np.array(out[0])))
            return out
        return g

    def wrap_save(f):
        def g(fe, sol, path, *a, **k):
            pi = k.get('point_infos') or (a[1] if len(a) > 1 else None)
            ci = k.get('cell_infos') or (a[0] if a else None)
            log.append(('save', np.array(sol), {n: np.array(v) for n, v in (pi or [])}, {n: np.array(v) for n, v in (ci or [])}, path))
            return f(fe, sol, path, *a, **k)
        return g
    disps = np.array([0.] + loads)
    ns, p, c = setup(ctx, job['mesh'], over=dict(disps=disps), patch=dict(solver=wrap_solver, save_sol=wrap_save), whole=True)
    R = Ref(ns, p, c)
    H_old = np.zeros((len(c), ns['problem_u'].fes[0].num_quads))
    u, d = np.zeros((len(p), 2)), np.zeros((len(p), 1))
    if not log or log[0][0] != 'save':
        raise CheckFail('the initial state is not saved')
    i = 1
    forces = [0.]
    for n, disp in enumerate(loads):
        what = 'schedule %s step %d' % (loads, n + 1)
        changes = []
        H = H_old
        while i < len(log) and log[i][0] != 'save':
            if log[i][0] != 'Elasticity' or i + 1 >= len(log) or log[i + 1][0] != 'PhaseField':
                raise CheckFail(what + ': displacement and damage are not solved in turn')
            dq = R.at_quads(d)
            if not ref.close(log[i][1][0].reshape(dq.shape), dq, 1e-8, 1e-10):
                raise CheckFail(what + ': displacement solved with a damage that is not the current one')
            u2 = log[i][2]
            R.check_u(u2, d, disp, what)
            H = log[i + 1][1][0]
            R.check_H(H, u2, H_old, what)
            d2 = log[i + 1][2]
            R.check_d(d2, H, what)
            with np.errstate(all='ignore'):
                changes.append(max(np.linalg.norm(u2 - u) / np.linalg.norm(u2), np.linalg.norm(d2 - d) / np.linalg.norm(d2)))
            u, d = u2, d2
            i += 2
        if not changes:
            raise CheckFail(what + ': nothing was solved')
        if np.isfinite(changes[-1]) and changes[-1] > 1e-5:
            raise CheckFail('%s: the step was accepted although the last sweep changed the solution by %g (tolerance 1e-5)' % (what, changes[-1]))
        if i >= len(log):
            raise CheckFail(what + ': the step is not saved')
        _, s, pi, ci, path = log[i]
        i += 1
        if not (np.array_equal(s, d) and np.array_equal(pi.get('u'), u) and np.allclose(ci.get('history'), H.mean(1), rtol=1e-12, atol=1e-15)):
            raise CheckFail(what + ': the saved state is not the converged one')
        if not os.path.exists(path):
            raise CheckFail(what + ': nothing written to ' + path)
        H_old = H
        forces.append(R.traction(u, d)[1])
        ctx.add(states=1, transitions=len(changes), traces=0)
    if i != len(log):
        raise CheckFail('more steps than loads')
    with np.load(os.path.join(ns['output_dir'], 'sol.npz')) as z:
        if not np.allclose(z['disps'], disps) or not np.allclose(z['forces'], forces, rtol=1e-5, atol=1e-5):
            raise CheckFail('force-displacement data %s, expected %s' % (z['forces'].tolist(), forces))
    ctx.add(traces=1)
    return 'forces %s' % [float('%.4g' % f) for f in forces]
