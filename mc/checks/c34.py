"""C34: the shipped load-stepping, continuation and relaxation drivers.  Every script runs as a whole on every load word (schedule, end load, mesh)
inside the bound; each state it solves for, reports or saves is compared with an independent equilibrium computed from its own history."""
import itertools
import os
import types
import numpy as np
import meshio
from mc import ref, meshes, apps
from mc.core import CheckFail
from mc.checks import c23, c24

LEVEL = 'model_checking'
RULE = ('one case per run of a shipped script; plastic, polycrystal: one run per load word; arc, relax: one run per end load, step length and mesh; index: one case per mesh and node numbering; '
        'non-trivial: the run contains a state that is not zero')
BOUND = {'quick': 'finite plasticity: all words of length 3 over 3 levels on one column and 3 on a plate; polycrystal: 3 words of (displacement, time) steps; arc length: 2 runs of each driver; relaxation: one run of each driver; linear: 2 meshes each; surrogate material: the shipped network and 2 polynomial energies',
         'thorough': 'all words of length 3 over 3 levels; polycrystal: all words of length 2 over 3 displacements and 2 time steps; arc length: 6 runs each; relaxation: 2 runs each; surrogate material: 3 meshes x 3 energies'}
ASSUMPTIONS = ['meshes are smaller than the shipped ones', 'the random grain orientations are read off the saved files']


def jobs(tier, seed):
    q = tier == 'quick'
    n = 2 if q else 3
    js = [dict(kind='arc', mode=m, k=k) for m in ('force', 'displacement') for k in range(2 if q else 6)]
    js += [dict(kind='relax', app=a, k=k) for a in ('beam2d', 'beam3d', 'cellular') for k in range(1 if q else 2)]
    W = list(itertools.product(range(3), range(2)))
    js += [dict(kind='polycrystal', word=w) for w in ([[(1, 0), (2, 1)], [(2, 1), (0, 0)]] if q else [list(w) for w in itertools.product(W, repeat=2)])]
    words = [list(w) for w in itertools.product(range(3), repeat=n)]
    js += [dict(kind='plastic', app='single_cell', words=[list(w) for w in itertools.product(range(3), repeat=3)][i::5]) for i in range(5)]
    js += [dict(kind='plastic', app='thin_plate', words=[w]) for w in ([words[1], words[3]] if q else words[::2])]
    js += [dict(kind='linear', app=a, k=k) for a in ('serendipity', 'forward') for k in range(2)]
    js += [dict(kind='index'), dict(kind='demo')]
    js += [dict(kind='surrogate', k=k) for k in range(3 if q else 9)]
    return js


def run(job, ctx):
    globals()[job['kind']](job, ctx)


class Proxy:
    def __init__(self, obj, **kw):
        self.__dict__.update(kw, _obj=obj)

    def __getattr__(self, k):
        return getattr(self._obj, k)


def saver(saves):
    def wrap(f):
        def save(fe, sol, path, cell_infos=None, point_infos=None):
            saves.append((np.asarray(sol), {k: np.asarray(v) for k, v in (cell_infos or [])}, os.path.basename(path)))
        return save
    return wrap


def record(log, **opts):
    def wrap(f):
        def g(problem, solver_options={}, *a, **kw):
            out = f(problem, dict(solver_options, **opts), *a, **kw)
            log.append((problem, solver_options, out))
            return out
        return g
    return wrap


def mesh_of(p, c, kind='hexahedron'):
    return lambda f: lambda *a, **kw: meshio.Mesh(np.array(p, float), {kind: np.array(c)})


def where(p, d, v, tol=1e-5):
    return np.where(np.abs(p[:, d] - v) < tol)[0]


def wiggle(p, lo, hi, a=.05):
    """moves the nodes that are on no outer face"""
    on = np.any(np.isclose(p, lo) | np.isclose(p, hi), axis=1)
    s = np.stack([np.sin(3 * p[:, 0] + 2 * p[:, 1] + k) for k in range(p.shape[1])], 1)
    return p + a * s * (~on)[:, None]


# ---------------------------------------------------------------- finite plasticity
def plastic(job, ctx):
    app = job['app']
    for word in job['words']:
        ctx.case([app, word], lambda: plastic_run(ctx, app, word), timeout=500)


def plastic_run(ctx, app, word):
    import jax.numpy as jnp
    if app == 'single_cell':
        p, c = meshes.mesh('HEX8', [2, 1, 1])
        p = p / p.max(0)
        p[(p[:, 0] > .1) & (p[:, 0] < .9) & (p[:, 1] > .5)] += [.07, 0., 0.]
        levels = [.004, -.003, .012]
    else:
        p, c = meshes.mesh('HEX8', [3, 3, 1])
        p = p / p.max(0) * [10., 10., .25]
        levels = [.002, .006, 0.]
    scales = [levels[i] for i in word]
    log, saves = [], []
    apps.script(ctx, 'finite_plasticity', app, whole=True, packages=[], over=dict(scales=jnp.array(scales)),
                patch=dict(box_mesh_gmsh=mesh_of(p, c), solver=record(log), save_sol=saver(saves)))
    if len(log) != len(word) or len(saves) != len(word):
        raise CheckFail('%d solves and %d files for %d load levels' % (len(log), len(saves), len(word)))
    c = np.asarray(log[0][0].fes[0].cells)
    p = np.asarray(log[0][0].fes[0].points)
    geo = ref.Space('HEX8', p, c, 3).geometry()
    I = np.eye(3)
    st = (np.broadcast_to(I, (len(c), 8, 3, 3)), np.broadcast_to(I, (len(c), 8, 3, 3)), np.zeros((len(c), 8)))
    ys = 0
    for k, (s, (_, _, out), (sv, cells, name)) in enumerate(zip(scales, log, saves)):
        u = np.asarray(out[0])
        w = ' in step %d of %s' % (k, scales)
        if not np.array_equal(u, sv):
            raise CheckFail('the saved solution is not that of the step' + w)
        if str(k) not in name:
            raise CheckFail('file name %s' % name)
        if app == 'single_cell':
            bc = [(3 * where(p, 2, 0.) + 2, 0.), (3 * where(p, 2, 1.) + 2, s)]
            o, x = [np.where(np.abs(p - q).max(1) < 1e-5)[0] for q in ([0., 0, 0], [1., 0, 0])]
            bc += [(3 * o, 0.), (3 * o + 1, 0.), (3 * x + 1, 0.)]
        else:
            wall = np.unique(np.concatenate([where(p, d, v) for d in (0, 1) for v in (0., 10.)]))
            top = where(p, 2, .25)
            sdf = np.minimum(np.minimum(p[top, 0], 10 - p[top, 0]), np.minimum(p[top, 1], 10 - p[top, 1]))
            bc = [(3 * top + 2, -s * 10 * sdf / 5)] + [(3 * wall + i, 0.) for i in range(3)]
        fix = np.unique(np.concatenate([d for d, _ in bc]))
        for d, v in bc:
            if not np.abs(u.reshape(-1)[d] - v).max() < 1e-7:
                raise CheckFail('prescribed displacement missed by %g%s' % (np.abs(u.reshape(-1)[d] - v).max(), w))
        F = I + np.einsum('cni,cqnj->cqij', u[c], geo['G'])
        st, tau, info = c23.model(F, st)
        ys += int((info['phi'] > 0).sum())
        P = tau @ np.swapaxes(np.linalg.inv(F), -1, -2)
        r = np.zeros_like(u)
        np.add.at(r, c, np.einsum('cqij,cqnj,cq->cni', P, geo['G'], geo['W']))
        r = r.reshape(-1)
        r[fix] = 0.
        if not np.abs(r).max() < 1e-3:
            raise CheckFail('forces out of balance by %g%s' % (np.abs(r).max(), w))
        sig = (tau / np.linalg.det(F)[..., None, None]).mean(1)
        n = np.sqrt(np.sum(sig * sig, axis=(1, 2)))
        if not ref.close(cells['s_norm'], n, 1e-7, 1e-5):
            raise CheckFail('saved stress%s: %s' % (w, ref.diff(cells['s_norm'], n)))
    ctx.add(states=len(word), transitions=len(word), traces=1)
    return '%d of %d points yield' % (ys, 8 * len(c) * len(word))


# ---------------------------------------------------------------- polycrystal
def polycrystal(job, ctx):
    def one():
        import jax.numpy as jnp
        word = job['word']
        p, c = meshes.mesh('HEX8', [2, 1, 1])
        p = p / p.max(0) * .1
        c = np.asarray(c)
        grains = np.array([7, 3])
        rs = np.random.RandomState
        lv, dts = [.00006, .0002, -.0001], [.02, .2]
        disps, ts = [0.], [0.]
        for a, b in word:
            disps.append(lv[a])
            ts.append(ts[-1] + dts[b])

        def files(d):
            os.makedirs(os.path.join(d, 'input', 'polycrystal_neper'), exist_ok=True)
            tag = {'gmsh:physical': [grains], 'gmsh:geometrical': [grains]}
            meshio.write(os.path.join(d, 'input', 'polycrystal_neper', 'domain.msh'), meshio.Mesh(p, [('hexahedron', c)], cell_data=tag), file_format='gmsh22', binary=False)
        log, saves, stored = [], [], []

        def solve(f):
            def g(problem, solver_options={}, *a, **kw):
                # the Krylov solver of the script breaks down on two cells
                out = f(problem, {'spsolve_solver': {}, 'initial_guess': solver_options['initial_guess']}, *a, **kw)
                log.append((problem, problem.dt, [np.asarray(x) for x in problem.internal_vars], np.asarray(out[0]), np.asarray(problem.compute_residual(out)[0])))
                return out
            return g
        np.random.seed(1)
        apps.script(ctx, 'crystal_plasticity', 'polycrystal_neper', whole=True, over=dict(disps=jnp.array(disps), ts=jnp.array(ts)), files=files,
                    patch=dict(solver=solve, save_sol=saver(saves)))
        if len(log) != len(word) or len(saves) != len(word):
            raise CheckFail('%d solves and %d files for %d steps' % (len(log), len(saves), len(word)))
        prob = log[0][0]
        p, c = np.asarray(prob.fes[0].points), np.asarray(prob.fes[0].cells)
        geo = ref.Space('HEX8', p, c, 3).geometry()
        quat = np.loadtxt(os.path.join(apps.REPO, 'applications', 'crystal_plasticity', 'input', 'polycrystal_neper', 'quaternions.txt'))[:10, 1:]
        cn = c24.canon(np.asarray(prob.Schmid_tensors), c24.schmid(np.eye(3)))
        corner = lambda z: np.where(np.abs(p - [0., 0., z]).max(1) < 1e-3)[0]
        act = 0.
        for k, ((a, b), (_, dt, old, u, r), (sv, cells, name)) in enumerate(zip(word, log, saves)):
            w = ' in step %d of %s' % (k, word)
            if not np.array_equal(u, sv):
                raise CheckFail('the saved solution is not that of the step' + w)
            if not abs(dt - dts[b]) < 1e-12:
                raise CheckFail('time increment %g%s' % (dt, w))
            bc = [(3 * corner(.1) + 1, 0.), (3 * corner(.1) + 2, 0.), (3 * corner(0.) + 1, 0.), (3 * where(p, 0, 0.), 0.), (3 * where(p, 0, .1), lv[a])]
            for d, v in bc:
                if not np.abs(u.reshape(-1)[d] - v).max() < 1e-9:
                    raise CheckFail('prescribed displacement missed' + w)
            ori = cells['cell_ori_inds']
            Rs = [rotation(quat[i]) for i in ori]
            if k + 1 < len(word):
                new = log[k + 1][2]
            else:
                new = [np.asarray(x) for x in prob.update_int_vars_gp(u, old)]
            F = np.eye(3) + np.einsum('cni,cqnj->cqij', u[c], geo['G'])
            fr = np.zeros((len(c), 8, 3))
            s = []
            for i, R in enumerate(Rs):
                Fe = F[i] @ new[0][i]
                S = np.einsum('ijkl,qkl->qij', c24.elastic(R), .5 * (np.swapaxes(Fe, 1, 2) @ Fe - np.eye(3)))
                sg = Fe @ S @ np.swapaxes(Fe, 1, 2) / np.linalg.det(Fe)[:, None, None]
                Pk = np.linalg.det(F[i])[:, None, None] * sg @ np.swapaxes(np.linalg.inv(F[i]), 1, 2)
                fr[i] = np.einsum('qij,qnj,q->ni', Pk, geo['G'][i], geo['W'][i])
                s.append(np.einsum('qij,q->ij', sg, geo['W'][i]) / geo['W'][i].sum())
            o = dict(F=F, old=old, new=new, r=fr, sig=np.array(s), canon=cn)
            for i, R in enumerate(Rs):
                act = max(act, c24.certify(o, i, R, dts[b], geo, ' in cell %d%s' % (i, w)))
            q = np.zeros_like(u)
            np.add.at(q, c, fr)
            q = q.reshape(-1)
            q[np.concatenate([d for d, _ in bc])] = 0.
            # cells of size 0.1: forces are a hundredth of those on the unit cell
            if not np.abs(q).max() < 2e-5:
                raise CheckFail('forces out of balance by %g%s' % (np.abs(q).max(), w))
            if not ref.close(cells['sigma'], np.array(s)[:, 0, 0], 1e-6, 1e-3):
                raise CheckFail('saved stress%s: %s' % (w, ref.diff(cells['sigma'], np.array(s)[:, 0, 0])))
        ctx.add(states=len(word), transitions=len(word), traces=1)
        return 'max slip %.3g, orientations %s' % (act, ori.tolist())
    ctx.case(['polycrystal', job['word']], one, timeout=300)


def rotation(q):
    w, x, y, z = np.asarray(q) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)], [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)], [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


# ---------------------------------------------------------------- hyperelastic beams
def neo(E, nu, plane):
    """first Piola stress; plane: two-dimensional model with exponent -1, else three-dimensional (or plane strain)"""
    mu, ka = E / (2 * (1 + nu)), E / (3 * (1 - 2 * nu))

    def P(g):
        d = g.shape[-1]
        F = g + np.eye(d)
        if d == 2:
            J = F[..., 0, 0] * F[..., 1, 1] - F[..., 0, 1] * F[..., 1, 0]
            cof = np.stack([np.stack([F[..., 1, 1], -F[..., 1, 0]], -1), np.stack([-F[..., 0, 1], F[..., 0, 0]], -1)], -2)
        else:
            J = np.linalg.det(F)
            cof = J[..., None, None] * np.swapaxes(np.linalg.inv(F), -1, -2)
        J = J[..., None, None]
        I1 = np.sum(F * F, axis=(-1, -2))[..., None, None]
        if plane:
            return mu / J * (F - I1 / 2 * cof / J) + ka * (J - 1) * cof
        if d == 2:
            I1 = I1 + 1
        return mu * np.exp(-2. / 3 * np.log(J)) * (F - I1 / 3 * cof / J) + ka * (J - 1) * cof
    return P


class Body:
    def __init__(self, ele, p, c, P, loads=()):
        """loads: (condition on a node position, function(x) -> source)"""
        vol = lambda xp, us, gs, x, ivs: [(P(gs[0]), None)]
        sf = []
        for on, t in loads:
            faces = [(a, f) for a, f in ref.all_faces(ele, c) if all(on(p[i]) for i in ref.face_vertices(ele, c, a, f))]
            assert faces
            sf.append((faces, lambda xp, us, gs, x, ivs, t=t: [0. * us[0] + np.array(t)]))
        self.m = ref.RefModel([ref.Space(ele, p, c, p.shape[1])], vol, sf)

    def balance(self, u, fix):
        r = self.m.residual(np.asarray(u, float).reshape(-1))
        r[fix] = 0.
        return np.linalg.norm(r)


def midspan(x):
    return abs(x[1]) < 1e-5 and 23. < x[0] < 27.


def arc(job, ctx):
    k = job['k']

    def one():
        from jax_fem.generate_mesh import Mesh
        p, c = meshes.linear_mesh('QUAD4', [[30, 31, 30, 24, 29, 30][k], 2])
        p, c = p / p.max(0) * [50., 2.], np.asarray(c)
        p = wiggle(p, [0., 0.], [50., 2.], .1)
        states, over, tweak = [], {}, {}
        force = job['mode'] == 'force'
        load, step, late, switch, last = ([(.5, .04, 1., 12, 40), (-1., .1, .2, 40, 60), (1., .05, 1., 14, 60), (.5, .02, .5, 40, 100), (.4, .1, .2, 4, 60), (-5., .4, .4, 1, 60)] if force else
                                        [(-1., 1., 0, 0, 60), (1., .4, 0, 0, 60), (-2.5, .5, 0, 0, 60), (-2.5, 2., 0, 0, 60), (-.5, .3, 0, 0, 60), (2., .6, 0, 0, 60)])[k]
        over['END_TRACTION' if force else 'END_COMPRESSION'] = load
        out = []

        def wrap(f):
            def g(problem, solver_options={}, *a, **kw):
                o = dict(solver_options['arc_length'])
                cb = o['step_callback']

                def call(step, u, lam):
                    states.append((step, np.asarray(u), float(lam)))
                    return cb(step, u, lam)
                o['step_callback'] = call
                # the Krylov solvers of the final Newton iterations break down on the buckled states of these small meshes
                o['linear'] = {'spsolve_solver': {}}
                o.update(Delta_l=step, max_continuation_steps=last)
                if force:
                    o.update(Delta_l_late=late, Delta_l_switch_step=switch)
                r = f(problem, dict(solver_options, arc_length=o), *a, **kw)
                out.append((problem, o, r))
                return r
            return g
        saves = []
        apps.script(ctx, 'arc_length', 'beam2d_' + job['mode'], whole=True, over=over, patch=dict(make_mesh=lambda f: lambda *a, **kw: Mesh(p, c), solver=wrap, save_sol=saver(saves)))
        prob, opts, (sols, info) = out[0]
        P = neo(1e3, .3, True)
        lft, rgt = where(p, 0, 0.), where(p, 0, 50.)
        fix = np.concatenate([2 * lft, 2 * lft + 1])
        if not force:
            fix = np.concatenate([fix, 2 * rgt, 2 * rgt + 1])
        imp = (midspan, [0., 1e-5])

        def check(u, lam, w, tol):
            u = u.reshape(-1, 2)
            want = 0 * u
            if not force:
                want[rgt, 0] = lam * load
            if not np.abs((u - want).reshape(-1)[fix]).max() < 1e-6:
                raise CheckFail('prescribed displacements missed by %g%s' % (np.abs((u - want).reshape(-1)[fix]).max(), w))
            loads = [imp] + ([(lambda x: abs(x[0] - 50.) < 1e-5, [lam * load, 0.])] if force else [])
            b = Body('QUAD4', p, c, P, loads).balance(u, fix)
            if not b < tol:
                raise CheckFail('forces out of balance by %g%s' % (b, w))
        for step, u, lam in states:
            check(u, lam, ' at step %d, lambda %.6g' % (step, lam), 2e-5)
            ctx.add(states=1, transitions=1)
        if len(states) != len(info['history']):
            raise CheckFail('%d steps reported, %d in the history' % (len(states), len(info['history'])))
        want = [s for s in states if s[0] % 10 == 0]
        if len(saves) != len(want) or any(not np.array_equal(a[0][:, :2].reshape(-1), b[1]) for a, b in zip(saves, want)):
            raise CheckFail('%d files for %d steps to be saved' % (len(saves), len(want)))
        if info['polished']:
            check(np.asarray(sols[0]), 1., ' in the final state', 2e-5)
        elif len(states) != opts['max_continuation_steps']:
            raise CheckFail('stopped after %d steps at lambda %g' % (len(states), info['lam']))
        ctx.add(traces=1)
        return '%d steps, lambda %.4g, polished %s, max uy %.4g' % (len(states), info['lam'], info['polished'], np.abs(np.asarray(sols[0])[:, 1]).max())
    ctx.case(['arc', job['mode'], k], one, timeout=600)


def relax(job, ctx):
    k, app = job['k'], job['app']

    def one():
        log, saves = [], []
        patch = dict(solver=record(log), save_sol=saver(saves))
        if app == 'beam2d':
            p, c = meshes.linear_mesh('QUAD4', [[30, 1], [31, 2]][k])
            p, c = p / p.max(0) * [50., 2.], np.asarray(c)
            p = wiggle(p, [0., 0.], [50., 2.], .1)
            patch['rectangle_mesh'] = mesh_of(p, c, 'quad')
            apps.script(ctx, 'dynamic_relaxation', 'beam2d_displacement', whole=True, patch=patch)
            ele, P, loads, tol = 'QUAD4', neo(1e3, .3, True), [[(midspan, [0., 1e-5])], []], 1e-6
            bc = [[(0, 0., [0., 0.]), (0, 50., [-2.5, 0.])]] * 2
        elif app == 'beam3d':
            p, c = meshes.mesh('HEX8', [[20, 1, 1], [15, 1, 2]][k])
            p, c = p / p.max(0) * [20., 1., 1.], np.asarray(c)
            p = wiggle(p, [0., 0., 0.], [20., 1., 1.], .05)
            patch['box_mesh_gmsh'] = mesh_of(p, c)
            apps.script(ctx, 'dynamic_relaxation', 'beam3d_displacement', whole=True, patch=patch)
            ele, P, loads, tol = 'HEX8', neo(10., .3, False), [[]], 1e-5
            bc = [[(0, 0., [0., 0., 0.]), (0, 20., [-4., .005, 0.])]]
        else:
            a, b = meshes.linear_mesh('TRI3', [[2, 3], [3, 2]][k])
            p, c = meshes.upgrade('TRI6', a / a.max(0) * [3., 4.], b)
            c = np.asarray(c)
            shift = np.array([1.5, -2.])
            patch['meshio'] = lambda m: Proxy(m, read=lambda f: meshio.Mesh(np.concatenate([p + shift, 0 * p[:, :1]], 1)[:, :2], {'triangle6': c}))
            apps.script(ctx, 'dynamic_relaxation', 'cellular_displacement', whole=True, patch=patch)
            ele, P, loads, tol = 'TRI6', neo(70e3, .3, False), [[]], 2e-5
            p = p - p.min(0)
            bc = [[(1, 0., [0., 0.]), (1, 4., [0., -.15 * 4])]]
        if len(log) != len(loads) or len(saves) != len(loads):
            raise CheckFail('%d solves and %d files' % (len(log), len(saves)))
        obs = []
        for i, (prob, _, out) in enumerate(log):
            u = np.asarray(out[0])
            q, cc = np.asarray(prob.fes[0].points), np.asarray(prob.fes[0].cells)
            if not np.abs(q - p).max() < 1e-12:
                raise CheckFail('the mesh was not moved to the origin')
            dim = p.shape[1]
            fix = []
            for d, v, val in bc[i]:
                n = where(p, d, v)
                if not np.abs(u[n] - val).max() < 1e-7:
                    raise CheckFail('prescribed displacement missed by %g' % np.abs(u[n] - val).max())
                fix.append((dim * n[:, None] + np.arange(dim)).reshape(-1))
            b = Body(ele, p, cc, P, loads[i]).balance(u, np.concatenate(fix))
            if not b < tol:
                raise CheckFail('solve %d: forces out of balance by %g' % (i, b))
            if not np.array_equal(saves[i][0][:, :dim], u):
                raise CheckFail('the saved solution is not that of the solve')
            if i and not np.abs(u - log[0][2][0]).max() < 1e-2 * np.abs(u).max():
                raise CheckFail('the check without the guiding load left the buckled branch by %g' % np.abs(u - log[0][2][0]).max())
            obs.append('max |u| %.4g, balance %.2g' % (np.abs(u).max(), b))
        ctx.add(states=len(log), transitions=len(log), traces=1)
        return '; '.join(obs)
    ctx.case(['relax', app, k], one, timeout=400)


# ---------------------------------------------------------------- single solves
def linear(job, ctx):
    k, app = job['k'], job['app']

    def one():
        log, saves = [], []
        patch = dict(solver=record(log), save_sol=saver(saves))
        if app == 'serendipity':
            p, c = meshes.mesh('HEX20', [[2, 1, 1], [1, 2, 1]][k])
            c = np.asarray(c)
            p = p * [1.3, .8, 1.1]
            shift = np.array([-.4, 2., .7])
            L = p.max(0)[0]
            patch.update(meshio=lambda m: Proxy(m, read=lambda f: meshio.Mesh(p + shift, {'hexahedron20': c})), jax=lambda m: Proxy(m, profiler=types.SimpleNamespace(save_device_memory_profile=lambda f: None)))
            apps.script(ctx, 'serendipity', whole=True, patch=patch)
            mu, lam = 70e3 / 2.6, 70e3 * .3 / (1.3 * .4)
            P = lambda g: lam * np.trace(g, axis1=-2, axis2=-1)[..., None, None] * np.eye(3) + mu * (g + np.swapaxes(g, -1, -2))
            body = Body('HEX20', p - p.min(0), c, P)
            val, tol = .1 * L, 1e-4
        else:
            n = [(2, 1, 1), (2, 2, 1)][k]
            apps.script(ctx, 'scalability', 'example_forward', whole=True, over=dict(Nx=n[0], Ny=n[1], Nz=n[2]), patch=dict(solver=lambda f: record(log)(lambda pr, o: f(pr, {'spsolve_solver': {}})), save_sol=saver(saves)))
            p, c = np.asarray(log[0][0].fes[0].points), np.asarray(log[0][0].fes[0].cells)
            q, _ = meshes.mesh('HEX8', n)
            if len(q) != len(p):
                raise CheckFail('%d nodes' % len(p))
            body = Body('HEX8', p, c, neo(10., .3, False), [(lambda x: abs(x[1] - 1.) < 1e-5, [0., 1e-3, 0.])])
            L, val, tol = 1., .02, 1e-5
        if len(log) != 1 or len(saves) != 1:
            raise CheckFail('%d solves and %d files' % (len(log), len(saves)))
        u = np.asarray(log[0][2][0])
        lft, rgt = where(p - p.min(0), 0, 0.), where(p - p.min(0), 0, L)
        if not (np.abs(u[lft]).max() < 1e-9 and np.abs(u[rgt] - [val, 0., 0.]).max() < 1e-9):
            raise CheckFail('prescribed displacements missed')
        fix = (3 * np.concatenate([lft, rgt])[:, None] + np.arange(3)).reshape(-1)
        b = body.balance(u, fix)
        if not b < tol:
            raise CheckFail('forces out of balance by %g' % b)
        if not np.array_equal(saves[0][0], u):
            raise CheckFail('the saved solution is not that of the solve')
        ctx.add(states=1)
        return 'balance %.2g' % b
    ctx.case(['linear', app, k], one, timeout=500)


# ---------------------------------------------------------------- numbered boundaries
def index(job, ctx):
    def one():
        from jax_fem.solver import solver
        ns = apps.script(ctx, 'boundary_index', whole=True)
        prob = ns['problem']
        got = [sorted(np.asarray(n).tolist()) for n in prob.fes[0].node_inds_list]
        if got != [[0, 1, 2], [6, 7, 8]]:
            raise CheckFail('Dirichlet nodes %s' % got)
        # the tables drawn in the example: cells 0 (bottom left), 1 (top left), 2 (bottom right), 3; local faces 0 (bottom), 1 (left), 2 (right), 3 (top)
        got = [sorted(map(tuple, np.asarray(b).tolist())) for b in prob.boundary_inds_list]
        if got != [[(0, 0), (2, 0)], [(1, 3), (3, 3)]]:
            raise CheckFail('boundary faces %s' % got)
        u = np.asarray(solver(prob)[0])
        p, c = np.asarray(prob.fes[0].points), np.asarray(prob.fes[0].cells)
        faces = lambda v: [(a, f) for a, f in ref.all_faces('QUAD4', c) if all(abs(p[i, 1] - v) < 1e-9 for i in ref.face_vertices('QUAD4', c, a, f))]
        load = lambda xp, us, gs, x, ivs: [-np.sin(5 * x[..., :1])]
        R = ref.RefModel([ref.Space('QUAD4', p, c, 1)], lambda xp, us, gs, x, ivs: [(gs[0], None)], [(faces(0.), load), (faces(1.), load)])
        want = R.newton([(where(p, 0, 0.), np.zeros(3)), (where(p, 0, 1.), np.zeros(3))])
        if not ref.close(u.reshape(-1), want, 1e-7, 1e-8):
            raise CheckFail('solution %s' % ref.diff(u.reshape(-1), want))
        ctx.add(states=1)
        return 'max %.4g' % u.max()
    ctx.case(['index'], one, timeout=100)


# ---------------------------------------------------------------- the two-variable arc-length demonstration
def demo(job, ctx):
    def one():
        marks = []
        quiet = lambda *a, **kw: None
        axis = types.SimpleNamespace(cla=quiet, add_patch=quiet, set_xlim=quiet, set_ylim=quiet, set_aspect=quiet)
        draw = types.SimpleNamespace(figure=quiet, gca=lambda: axis, plot=quiet, show=quiet, Circle=lambda x, r, **kw: marks.append((float(x[0]), float(x[1]), float(r))))
        apps.script(ctx, 'arc_length', 'demo_analytical', whole=True, patch=dict(plt=lambda m: draw))
        pts, rad = marks[::2], marks[0][2]
        if len(pts) < 2 or pts[0][:2] != (0., 0.) or any(a[:2] != b[:2] for a, b in zip(marks[::2], marks[1::2])):
            raise CheckFail('marked states %s' % marks)
        for a, b in zip(pts, pts[1:]):
            if not abs(b[1] - (b[0] - b[0] ** 2)) < 1e-5:
                raise CheckFail('state %s is off the path' % (b,))
            if not abs(np.hypot(b[0] - a[0], b[1] - a[1]) - rad) < 1e-5 or not b[1] > a[1]:
                raise CheckFail('step from %s to %s is not forward by the arc length %g' % (a, b, rad))
            ctx.add(states=1, transitions=1)
        return '%d states, last %s' % (len(pts), pts[-1])
    ctx.case(['demo'], one)


# ---------------------------------------------------------------- surrogate material
def elu_net(q, x):
    """gradient of the network's output at x (n, 3), by hand"""
    hs = []
    for i in range(3):
        z = x @ q[i][0] + q[i][1]
        hs.append(z)
        x = np.where(z > 0, z, np.expm1(np.minimum(z, 0.)))
    g = np.ones((len(x), 1)) @ q[3][0].T
    for i in (2, 1, 0):
        g = (g * np.where(hs[i] > 0, 1., np.exp(np.minimum(hs[i], 0.)))) @ q[i][0].T
    return g


def surrogate(job, ctx):
    """flax, torch and optax are not installed: modules that hold only the names the script imports stand in for them, and the network is evaluated from the shipped weights"""
    k = job['k']

    def one():
        import sys
        import pickle
        import jax.numpy as jnp
        mode, mk = k % 3, k // 3
        with open(os.path.join(apps.REPO, 'applications', 'surrogate_model', 'input', 'model.pth'), 'rb') as f:
            state = pickle.load(f)
        if mode:
            state = [None, dict(c=np.array([30., 2., 40., 8., 11., 3., 5., -4., 2., 1.])), dict(c=np.array([50., 10., 60., 15., 0., -2., 0., 0., 0., 25.]))][mode]

        class Net:
            def apply(self, w, x):
                if mode:
                    a, b, c, d, e, f, g, h, i, j = w['c']
                    return a * x[0] ** 2 + b * x[0] * x[1] + c * x[2] ** 2 + d * x[0] * x[2] + e * x[1] ** 2 + f * x[1] * x[2] + g * x[0] + h * x[1] + i * x[2] + j * (x[0] + x[1]) ** 3 + 9. * x[1] ** 2
                w = w['params']
                for i in range(4):
                    x = x @ jnp.asarray(w['Dense_%d' % i]['kernel'], float) + jnp.asarray(w['Dense_%d' % i]['bias'], float)
                    x = jnp.where(x > 0, x, jnp.expm1(jnp.minimum(x, 0.))) if i < 3 else x
                return x

        def grad(x):
            if mode:
                a, b, c, d, e, f, g, h, i, j = state['c']
                s = 3 * j * (x[:, 0] + x[:, 1]) ** 2
                return np.stack([2 * a * x[:, 0] + b * x[:, 1] + d * x[:, 2] + g + s, b * x[:, 0] + 2 * (e + 9.) * x[:, 1] + f * x[:, 2] + h + s, 2 * c * x[:, 2] + d * x[:, 0] + f * x[:, 1] + i], 1)
            w = state['params']
            return elu_net([(np.asarray(w['Dense_%d' % i]['kernel'], float), np.asarray(w['Dense_%d' % i]['bias'], float)) for i in range(4)], x)

        class Any(types.ModuleType):
            def __getattr__(self, n):
                if n.startswith('__'):
                    raise AttributeError(n)
                return type(n, (), {}) if n[0].isupper() else (lambda *a, **kw: a[0] if a else None)
        fake = {}
        for n in ('torch', 'torch.utils', 'torch.utils.data', 'torch.utils.data.sampler', 'flax', 'flax.linen', 'flax.core', 'flax.serialization', 'optax'):
            fake[n] = Any(n)
            fake[n].__path__ = []
        for n in list(fake):
            if '.' in n:
                setattr(fake[n.rsplit('.', 1)[0]], n.rsplit('.', 1)[1], fake[n])
        fake['flax.serialization'].from_state_dict = lambda target, state: state
        old = {n: sys.modules.get(n) for n in fake}
        log, saves = [], []
        p, c = meshes.linear_mesh('QUAD4', [[3, 2], [2, 3], [4, 4]][mk])
        p = wiggle(p / p.max(0) * 30., [0., 0.], [30., 30.], 1.)
        c = np.asarray(c)
        sys.modules.update(fake)
        try:
            apps.script(ctx, 'surrogate_model', whole=True, files=lambda d: pickle.dump(state, open(os.path.join(d, 'input', 'model.pth'), 'wb')),
                        patch=dict(Network=lambda n: Net, rectangle_mesh=mesh_of(p, c, 'quad'), save_sol=saver(saves),
                                   solver=lambda f: record(log)(lambda pr, o: f(pr, {'spsolve_solver': {}}))))
        finally:
            for n, m in old.items():
                if m is None:
                    sys.modules.pop(n, None)
                else:
                    sys.modules[n] = m
        if len(log) != 1 or len(saves) != 1:
            raise CheckFail('%d solves and %d files' % (len(log), len(saves)))
        zero = grad(np.zeros((1, 3)))[0]

        def P(g):
            F = g + np.eye(2)
            E = .5 * (np.swapaxes(F, -1, -2) @ F - np.eye(2))
            s = (grad(np.stack([E[..., 0, 0], E[..., 0, 1], E[..., 1, 1]], -1).reshape(-1, 3)) - zero).reshape(E.shape[:-2] + (3,))
            return F @ np.stack([np.stack([s[..., 0], s[..., 1]], -1), np.stack([s[..., 1], s[..., 2]], -1)], -2)
        u = np.asarray(log[0][2][0])
        cc = np.asarray(log[0][0].fes[0].cells)
        bot, top = where(p, 1, 0.), where(p, 1, 30.)
        if not (np.abs(u[bot]).max() < 1e-9 and np.abs(u[top] - [0., -1.5]).max() < 1e-9):
            raise CheckFail('prescribed displacements missed')
        fix = (2 * np.concatenate([bot, top])[:, None] + np.arange(2)).reshape(-1)
        b = Body('QUAD4', p, cc, P).balance(u, fix)
        if not b < 1e-5:
            raise CheckFail('forces out of balance by %g' % b)
        if not np.array_equal(saves[0][0], u):
            raise CheckFail('the saved solution is not that of the solve')
        ctx.add(states=1, traces=1)
        return 'balance %.2g, max |u| %.4g' % (b, np.abs(u).max())
    ctx.case(['surrogate', k], one, timeout=300)
