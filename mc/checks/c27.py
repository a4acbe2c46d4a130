"""C27: updated-Lagrangian stepping.  All load histories of the bound through the real step; every reached configuration is checked against
an independent total-Lagrangian model of the same body, whose state is the accumulated displacement alone."""
import itertools
import os
import numpy as np
from mc import ref, meshes, apps
from mc.core import CheckFail

LEVEL = 'model_checking'
RULE = ('history: one case per node of the tree of load histories (accumulated displacement, deformation gradients, boundary values, equilibrium of the total-Lagrangian reference); design: one case per schedule and design '
        '(objective and its gradient against the adjoint of the reference); step: one case per parameter entry of one step; output: one case per saved step; non-trivial: a load that is not zero or a derivative entry')
BOUND = {'quick': 'all histories of depth 3 over 4 load levels on 3 meshes (HEX8, TET4) and 2 designs; 12 schedule/design pairs; all parameter entries of one 2-cell step',
         'thorough': 'depth 4 over 5 levels, also HEX20 and TET10; 40 schedule/design pairs; two steps'}
ASSUMPTIONS = ['loads small enough for full Newton steps to converge and for a single equilibrium branch']

LAM = [0., .06, -.05, .12, .2]
SIZE = [1., .2, .2]


def body(ele, n):
    p, c = meshes.mesh(ele, n, SIZE)
    p = p - [0., .1, .1]
    bend = .04 * np.sin(2.5 * p[:, :1]) * np.array([[0., 1., .6]]) * (p[:, :1] * (1 - p[:, :1]))
    return p + bend, meshes.rotate_cells(ele, c, [0, 3, 7])


def design(nc, k):
    i = np.arange(nc)
    return [np.ones(nc), .4 + .5 * ((7 * i + 3) % 5) / 5., .65 + .05 * np.sin(i), np.where(i % 2, 1.4, .5)][k]


def jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for ele, n in [('HEX8', [2, 1, 1]), ('HEX8', [3, 1, 1]), ('TET4', [2, 1, 1])] + ([] if q else [('HEX20', [2, 1, 1]), ('TET10', [1, 1, 1])]):
        for rho in ((0, 1) if ele != 'TET4' or not q else (1,)):
            for a in range(4 if q else 5):
                js.append(dict(kind='history', ele=ele, n=n, rho=rho, first=a, loads=4 if q else 5, depth=3 if q else 4))
    for ele, n in [('HEX8', [3, 1, 1]), ('TET4', [2, 1, 1])]:
        for steps, parts in ([(1, 9), (2, 12), (3, 14)] if q else [(1, 9), (2, 12), (3, 14), (4, 16), (7, 14)]):
            for k in ((1, 3) if q else (0, 1, 2, 3)):
                js.append(dict(kind='design', ele=ele, n=n, steps=steps, parts=parts, rho=k))
    for st in range(1 if q else 2):
        for key in ['rho', 'lam', 'points', 'F_prev']:
            js.append(dict(kind='step', ele='HEX8', n=[2, 1, 1], steps=st + 1, key=key))
    js.append(dict(kind='output', ele='HEX8', n=[3, 1, 1], steps=3))
    js.append(dict(kind='build'))
    js.sort(key=lambda j: {'history': 1, 'design': 0, 'step': 0, 'output': 2, 'build': 2}[j['kind']])
    return js


class TL:
    """Total-Lagrangian reference of the compressible neo-Hookean body with per-cell stiffness rho^p."""

    def __init__(self, ns, ele, p, c, rho):
        self.ns, self.p, self.c = ns, p, c
        mu, lam, pw = ns['MU'], ns['LAMBDA'], ns['SIMP_P']
        self.s = ref.Space(ele, p, c, 3)
        nq = len(self.s.qw)
        self.rho = np.asarray(rho)

        def vol(xp, us, gs, x, ivs):
            F = gs[0] + np.eye(3)
            J = np.linalg.det(F)
            tau = mu * (F @ np.swapaxes(F, -1, -2) - np.eye(3)) + lam * np.log(J)[..., None, None] * np.eye(3)
            P = tau @ np.swapaxes(np.linalg.inv(F), -1, -2)
            return [((ivs[0] ** pw)[:, None, None, None] * P, None)]
        self.m = ref.RefModel([self.s], vol)
        x = p[:, 0]
        self.fixed = np.isclose(x, 0.) | np.isclose(x, 1.)

    def target(self, lam):
        x, y, z = self.p.T
        t = lam * np.pi
        r = np.isclose(x, 1.)
        u = np.zeros(self.p.shape)
        u[r, 0] = lam * self.ns['RIGHT_PULL']
        u[r, 1] = (y * (np.cos(t) - 1) - z * np.sin(t))[r]
        u[r, 2] = (y * np.sin(t) + z * (np.cos(t) - 1))[r]
        return u

    def residual(self, u, rho=None):
        return self.m.residual(np.asarray(u).reshape(-1), [self.rho if rho is None else rho]).reshape(-1, 3)

    def F(self, u):
        return np.einsum('cqnd,cnv->cqvd', self.m.geo[0]['G'], u[self.c]) + np.eye(3)

    def check(self, u, lam, what):
        u = np.asarray(u)
        t = self.target(lam)
        if not ref.close(u[self.fixed], t[self.fixed], 1e-9, 1e-9):
            raise CheckFail('%s: total displacement of the loaded ends is wrong: %s' % (what, ref.diff(u[self.fixed], t[self.fixed])))
        r = self.residual(u)[~self.fixed]
        if not np.all(np.linalg.det(self.F(u)) > 0):
            raise CheckFail(what + ': the accumulated configuration is turned inside out')
        if r.size and not np.abs(r).max() <= 2e-6:
            raise CheckFail('%s: the accumulated configuration is not in equilibrium (total-Lagrangian residual %g)' % (what, np.abs(r).max()))

    def gradient(self, u, clip):
        """d(sum u^2)/d rho by the adjoint method, complex steps for the derivatives."""
        free = np.repeat(~self.fixed, 3)
        K = self.m.jacobian(np.asarray(u).reshape(-1), [self.rho])[np.ix_(free, free)]
        adj = np.linalg.solve(K.T, 2 * np.asarray(u).reshape(-1)[free])
        g = np.zeros(len(self.rho))
        for i in range(len(g)):
            r = self.rho.astype(complex)
            r[i] += 1e-30j
            g[i] = -(self.residual(u, r).imag.reshape(-1)[free] / 1e-30) @ adj
        return g * clip


def setup(ctx, job, tight=None):
    from jax_fem.generate_mesh import Mesh
    ns = apps.script(ctx, 'updated_lagrangian')
    p, c = body(job['ele'], job['n'])
    tags = ns['boundary_node_tags'](p)
    if np.asarray(tags).tolist() != np.where(np.isclose(p[:, 0], 0.), 1, np.where(np.isclose(p[:, 0], 1.), 2, 0)).tolist():
        raise CheckFail('boundary tags %s' % np.asarray(tags))
    prob = ns['UpdatedLagrangian'](mesh=Mesh(p, c, ele_type=job['ele']), vec=3, dim=3, ele_type=job['ele'], dirichlet_bc_info=ns['build_dirichlet_bc_by_tag'](tags), location_fns=None, additional_info=(tags,))
    opt = {'spsolve_solver': {}}
    fwd = ns['ad_wrapper'](prob, solver_options=dict(opt, **(tight or {})), adjoint_solver_options=opt)
    return ns, p, c, prob, fwd


def run(job, ctx):
    {'history': history, 'design': designs, 'step': steps, 'output': output, 'build': built}[job['kind']](job, ctx)


def history(job, ctx):
    import jax.numpy as jnp
    ns, p, c, prob, fwd = setup(ctx, job)
    rho = design(len(c), job['rho'])
    R = TL(ns, job['ele'], p, c, rho)
    nq = len(R.s.qw)

    def walk(path, state):
        def one():
            u, lam0, F = state
            lam = LAM[path[-1]]
            what = 'load history %s' % [LAM[a] for a in path]
            prm = dict(points=jnp.array(p + u), lam=jnp.asarray(lam), lam_prev=jnp.asarray(lam0), F_prev=F)
            if job['rho']:
                prm['rho'] = jnp.array(rho)
            du = fwd(prm)[0]
            F2 = ns['push_F_prev'](prob.fes[0], jnp.array(p + u), du, F)
            u2 = u + np.asarray(du)
            R.check(u2, lam, what)
            if not ref.close(np.asarray(F2), R.F(u2), 1e-9, 1e-9):
                raise CheckFail('%s: stored deformation gradient is not that of the accumulated displacement: %s' % (what, ref.diff(F2, R.F(u2))))
            ctx.add(states=1, transitions=1, traces=1)
            ctx.outcome('step' if lam != lam0 else 'repeat')
            return u2, lam, F2
        out = ctx.case(path, one, nontrivial=any(LAM[a] for a in path), timeout=120)
        if out is not None and len(path) < job['depth']:
            for a in range(job['loads']):
                walk(path + [a], out)
    walk([job['first']], (np.zeros(p.shape), 0., jnp.broadcast_to(jnp.eye(3), (len(c), nq, 3, 3))))


def designs(job, ctx):
    import jax
    import jax.numpy as jnp
    ns, p, c, prob, fwd = setup(ctx, job)
    ns['N_STEPS'], ns['LOAD_SCHEDULE_STEPS'] = job['steps'], job['parts']
    rho0 = design(len(c), job['rho'])
    eff = np.clip(rho0, ns['RHO_MIN'], 1.)
    clip = ((rho0 > ns['RHO_MIN']) & (rho0 < 1.)).astype(float)
    R = TL(ns, job['ele'], p, c, eff)

    def one():
        (J, aux), g = jax.value_and_grad(lambda r: ns['end_to_end_ul'](r, prob, prob.fes[0], fwd, aut=True), has_aux=True)(jnp.array(rho0))
        du = np.asarray(aux['delta_us'])
        if len(du) != job['steps']:
            raise CheckFail('%d increments for %d steps' % (len(du), job['steps']))
        for s in range(job['steps']):
            R.check(du[:s + 1].sum(0), (s + 1.) / job['parts'], 'step %d of %s' % (s + 1, job['steps']))
        u = du.sum(0)
        if not abs(J - np.sum(u ** 2)) <= 1e-10:
            raise CheckFail('objective %g is not that of the accumulated displacement %g' % (J, np.sum(u ** 2)))
        w = R.gradient(u, clip)
        if job['rho'] == 0:
            w, g2 = w[[]], np.asarray(g)[[]]  # the derivative of the clip is one-sided at the bound
        else:
            g2 = np.asarray(g)
        if not ref.close(g2, w, 2e-5, 1e-8):
            raise CheckFail('design gradient %s, reference %s' % (g2, w))
        J2 = ns['end_to_end_ul'](jnp.array(rho0), prob, prob.fes[0], fwd)
        if not abs(J2 - J) <= 1e-10:
            raise CheckFail('the objective changed from %g to %g when evaluated again' % (J, J2))
        ctx.add(states=job['steps'], transitions=job['steps'], traces=1)
        return 'J %.6g' % J
    ctx.case([job['steps'], job['parts'], job['rho']], one, timeout=180)


def steps(job, ctx):
    """All entries of the derivative of one step with respect to one of its parameters."""
    import jax
    import jax.numpy as jnp
    ns, p, c, prob, fwd = setup(ctx, job, dict(tol=1e-11, rel_tol=1e-14))
    rho = design(len(c), 1)
    nq = prob.fes[0].num_quads
    F, u, lam = jnp.broadcast_to(jnp.eye(3), (len(c), nq, 3, 3)), np.zeros(p.shape), 0.
    prm = None
    for s in range(job['steps']):
        prm = dict(points=jnp.array(p + u), lam=jnp.asarray(lam + .07), lam_prev=jnp.asarray(lam), F_prev=F, rho=jnp.array(rho))
        du = fwd(prm)[0]
        F = ns['push_F_prev'](prob.fes[0], prm['points'], du, F)
        u, lam = u + np.asarray(du), lam + .07
    w = jnp.array(np.cos(np.arange(p.size) * 1.3).reshape(p.shape))
    J = lambda q: jnp.sum(w * fwd(q)[0])
    g = None

    def grad():
        return jax.grad(J)(prm)
    g = ctx.case('gradient', grad, timeout=120)
    if g is None:
        return
    keys = ['lam', 'lam_prev'] if job['key'] == 'lam' else [job['key']]
    for key in keys:
        base = np.array(prm[key], float)
        for k in range(base.size):
            if key == 'F_prev' and k % 5:
                continue

            def one(k=k):
                v = []
                for sg in (1, -1):
                    b = base.copy().reshape(-1)
                    b[k] += sg * 1e-5
                    v.append(float(J(dict(prm, **{key: jnp.array(b.reshape(base.shape))}))))
                fd = (v[0] - v[1]) / 2e-5
                a = float(np.asarray(g[key]).reshape(-1)[k])
                if not abs(a - fd) <= 2e-5 * max(1., np.abs(np.asarray(g[key])).max()):
                    raise CheckFail('derivative with respect to %s[%d]: %.8g, differences of solves %.8g' % (key, k, a, fd))
                return a
            ctx.case([key, k], one)


def output(job, ctx):
    import meshio
    ns, p, c, prob, fwd = setup(ctx, job)
    n = job['steps']
    ns['N_STEPS'], ns['LOAD_SCHEDULE_STEPS'] = n, 9
    stack = np.cumsum(np.sin(np.arange(n * p.size)).reshape(n, *p.shape) * .01, axis=0)
    root = os.path.join(ctx.scratch, 'out')
    ns['OUTPUT_DIR'] = root
    os.makedirs(root, exist_ok=True)

    def write():
        ns['write_step_vtus'](prob.fes[0], stack, np.array(p))
    if ctx.case('write', lambda: write() or 'ok') is None:
        return
    for s in range(n):
        def one(s=s):
            m = meshio.read(os.path.join(root, 'delta_u_%04d.vtu' % s))
            if not np.allclose(m.points, p + stack[:s].sum(0), atol=1e-7):
                raise CheckFail('step %d is not saved on the configuration at its start' % s)
            if not np.allclose(m.point_data['sol'], stack[s], atol=1e-7):
                raise CheckFail('step %d: saved increment differs' % s)
            return 'ok'
        ctx.case([s], one)


def built(job, ctx):
    """The problem the script builds for itself."""
    ns = apps.script(ctx, 'updated_lagrangian')

    def one():
        prob = ns['build_mesh_and_problem']()
        fe = prob.fes[0]
        p = np.asarray(fe.points)
        if not (np.allclose(p.min(0), [0, -.1, -.1]) and np.allclose(p.max(0), [1, .1, .1])):
            raise CheckFail('box %s..%s' % (p.min(0), p.max(0)))
        got = {(int(i), int(v)) for I, V in zip(fe.node_inds_list, fe.vec_inds_list) for i, v in zip(I, V)}
        want = {(i, v) for i in range(len(p)) for v in range(3) if np.isclose(p[i, 0], 0) or np.isclose(p[i, 0], 1)}
        if got != want:
            raise CheckFail('constrained degrees of freedom')
        return len(got)
    ctx.case('build', one)
