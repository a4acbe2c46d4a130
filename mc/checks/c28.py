"""C28: laser heating with elasto-plasticity (thermal_mechanical example).  Explicit-state model per integration point (stress, strain, phase)
and per temperature field; every history of the bound is replayed on the real classes, and the shipped driver is run under several schedules."""
import itertools
import os
import numpy as np
from mc import ref, meshes, apps
from mc.core import CheckFail

LEVEL = 'model_checking'
RULE = ('point: one case per history of strain increments, temperature changes and phases at a material point; phase: one case per sequence of temperatures; thermal and mechanics: one case per node of the tree of laser '
        'settings / temperature fields on a small body; driver: one case per schedule, the shipped script executed as a whole; build: the shipped mesh; non-trivial: something is loaded or heated')
BOUND = {'quick': 'all point histories of length 3 over 7 increments x 3 temperature changes x 3 phases; all temperature sequences of length 4 over 4 levels; all laser histories of depth 3 over 4 settings on 2 meshes; all temperature-field histories of depth 3 over 4 fields; 3 driver schedules',
         'thorough': 'point histories of length 4 with 4 increments; laser and field histories of depth 4; 8 driver schedules'}
ASSUMPTIONS = ['small bodies with the dimensions and parameters of the example, laser power raised in some schedules so that the melting point is crossed']

TEMP = [300., 1500., 1623., 2100.]


def grid(n):
    p, c = meshes.mesh('HEX8', n, [.5e-3, .2e-3, .05e-3])
    return p, meshes.rotate_cells('HEX8', c, [0, 5, 11])


def jobs(tier, seed):
    q = tier == 'quick'
    js = [dict(kind='build')]
    for ph in itertools.product(range(3), repeat=2):
        js.append(dict(kind='point', phases=list(ph) + [2], incs=7))
    if not q:
        for ph in itertools.product(range(3), repeat=2):
            js.append(dict(kind='point', phases=list(ph) + [2, 2], incs=4))
    js.append(dict(kind='phase', depth=4 if q else 5))
    for n in [[2, 2, 1], [3, 2, 2]]:
        for a in range(4):
            js.append(dict(kind='thermal', n=n, first=a, depth=3 if q else 4))
    for a in range(4):
        for b in range(4):
            js.append(dict(kind='mechanics', n=[2, 2, 1], pre=[a, b], depth=3 if q else 4))
    for k in range(3 if q else 8):
        js.append(dict(kind='driver', k=k, n=[[2, 2, 1], [3, 2, 1], [2, 2, 2]][k % 3]))
    js.sort(key=lambda j: ['driver', 'mechanics', 'build', 'thermal', 'point', 'phase'].index(j['kind']))
    return js


def setup(ctx, n, over=None, patch=None, whole=False):
    import meshio
    p, c = grid(n)

    def box(f):
        return lambda *a, **k: meshio.Mesh(p, {'hexahedron': c})
    return apps.script(ctx, 'thermal_mechanical', over=over, patch=dict(box_mesh_gmsh=box, **(patch or {})), whole=whole), p, c


# ---------------------------------------------------------------- reference
class Thermal:
    def __init__(self, ns, p, c):
        self.ns, self.p, self.c = ns, p, c
        self.s = ref.Space('HEX8', p, c, 1)
        lo, hi = p.min(0), p.max(0)
        top, walls = [], []
        for k, f in ref.all_faces('HEX8', c):
            v = p[list(ref.face_vertices('HEX8', c, k, f))]
            if np.all(np.isclose(v[:, 2], hi[2], rtol=0, atol=1e-9)):
                top.append((k, f))
            elif any(np.all(np.isclose(v[:, d], e[d], rtol=0, atol=1e-9)) for d in (0, 1) for e in (lo, hi)):
                walls.append((k, f))
        self.top, self.walls = top, walls
        self.bottom = np.isclose(p[:, 2], lo[2], rtol=0, atol=1e-9)
        g = ns

        def vol(xp, us, gs, x, ivs):
            return [(g['k'] * gs[0], g['rho'] * g['Cp'] * (us[0] - ivs[0]) / self.dt)]

        def loss(T):
            return g['h'] * (g['T0'] - T) + g['SB_constant'] * g['emissivity'] * (g['T0'] ** 4 - T ** 4)

        def on_top(xp, us, gs, x, ivs):
            T, (xl, yl), sw = ivs
            d2 = (x[..., 0] - xl) ** 2 + (x[..., 1] - yl) ** 2
            return [-(loss(T) + (2 * g['eta'] * g['P'] / (np.pi * g['rb'] ** 2) * np.exp(-2 * d2 / g['rb'] ** 2) * sw)[..., None])]

        def on_walls(xp, us, gs, x, ivs):
            return [-loss(ivs[0])]
        self.m = ref.RefModel([self.s], vol, [(top, on_top), (walls, on_walls)])

    def quads(self, T):
        return np.einsum('qn,cnv->cqv', self.s.N, np.asarray(T)[self.c])

    def check(self, T, T_old, centre, switch, dt, what):
        self.dt = dt
        T, T_old = np.asarray(T), np.asarray(T_old)
        old = [np.einsum('fqn,fnv->fqv', fg[0]['N'], T_old[self.c][[k for k, _ in fs]]) for fg, (fs, _) in zip(self.m.fgeo, self.m.surfaces)]
        r = self.m.residual(T.reshape(-1), [self.quads(T_old)], [(old[0], centre, switch), (old[1],)])
        if not ref.close(T[self.bottom, 0], np.full(self.bottom.sum(), self.ns['T0']), 0, 1e-4):
            raise CheckFail('%s: the base plate is not at ambient temperature' % what)
        r = r[~self.bottom]
        if not np.abs(r).max() <= 2e-5:
            raise CheckFail('%s: temperatures violate the heat balance by %g W' % (what, np.abs(r).max()))


class Mech:
    """Perfect J2 plasticity in rate form with phase dependent stiffness and thermal strain."""
    E0, NU, SIG, ALPHA = 70e9, .3, 250e6, 1e-5

    @classmethod
    def stress(cls, e, s_old, e_old, dT, solid):
        """Vectorised return mapping: (..., 3, 3) arrays; solid, dT (...)."""
        E = np.where(solid, cls.E0, 1e-2 * cls.E0)[..., None, None]
        mu, lam = E / (2 * (1 + cls.NU)), E * cls.NU / ((1 + cls.NU) * (1 - 2 * cls.NU))
        I = np.eye(3)
        de = e - e_old - (np.where(solid, cls.ALPHA, 0.) * dT)[..., None, None] * I
        tr = np.trace(de, axis1=-2, axis2=-1)[..., None, None]
        t = lam * tr * I + 2 * mu * de + s_old
        dev = t - np.trace(t, axis1=-2, axis2=-1)[..., None, None] / 3 * I
        n = np.sqrt(1.5 * np.sum(dev * dev, (-1, -2)))
        f = np.maximum(n - cls.SIG, 0.)
        return t - (f / np.where(n > 0, n, 1.))[..., None, None] * dev, f


def phase_step(ph, T, Tl):
    """powder -> liquid above the liquidus, liquid -> solid below it; one transition per update."""
    out = ph.copy()
    out[(ph == 0) & (T > Tl)] = 1
    out[(ph == 1) & (T < Tl)] = 2
    return out


def sym(g):
    return .5 * (g + np.swapaxes(g, -1, -2))


def run(job, ctx):
    {'build': build, 'point': point, 'phase': phases, 'thermal': thermal, 'mechanics': mechanics, 'driver': driver}[job['kind']](job, ctx)


def build(job, ctx):
    """The problem on the mesh the script generates itself."""
    def one():
        ns = apps.script(ctx, 'thermal_mechanical')
        pT, pu = ns['problem_T'], ns['problem_u']
        p = np.asarray(pT.fes[0].points)
        c = np.asarray(pT.fes[0].cells)
        R = Thermal(ns, p, c)
        got = [{(int(a), int(b)) for a, b in np.asarray(x)} for x in pT.boundary_inds_list]
        for nm, g, w in zip(('top', 'walls'), got, (R.top, R.walls)):
            if g != set(w):
                raise CheckFail('%s: %d faces selected, the box has %d there' % (nm, len(g), len(w)))
        nodes = set(np.where(R.bottom)[0].tolist())
        for nm, fe in (('temperature', pT.fes[0]), ('displacement', pu.fes[0])):
            for n in fe.node_inds_list:
                if set(np.asarray(n).tolist()) != nodes:
                    raise CheckFail('%s: %d nodes held at the base, the box has %d there' % (nm, len(n), len(nodes)))
        return '%d top faces' % len(R.top)
    ctx.case('build', one, timeout=120)


G = [np.zeros((3, 3)), np.diag([1e-3, 0, 0]), np.diag([8e-3, -2e-3, -1e-3]), np.diag([-8e-3, 2e-3, 1e-3]), np.array([[0, 9e-3, 0], [-1e-3, 0, 0], [0, 0, 0]]), np.eye(3) * 6e-3,
     np.array([[1e-3, 2e-3, -6e-3], [0, -2e-3, 3e-3], [1e-3, 0, 4e-3]])]
DT = [0., 250., -600.]


def point(job, ctx):
    import jax
    import jax.numpy as jnp
    ns, p, c = setup(ctx, [2, 2, 1])
    strain, smap, info = ns['problem_u'].get_maps()
    vs, vi = jax.jit(jax.vmap(smap)), jax.jit(jax.vmap(info))
    vt = jax.jit(jax.vmap(jax.jacfwd(smap)))
    ninc, L = job['incs'], len(job['phases'])
    words = np.array(list(itertools.product(range(ninc * len(DT)), repeat=L)))
    g = np.zeros((len(words), 3, 3))
    s, e = np.zeros_like(g), np.zeros_like(g)
    for k, ph in enumerate(job['phases']):
        g = g + np.array(G)[words[:, k] // len(DT)]
        dT = np.array(DT)[words[:, k] % len(DT)]
        phv = np.full((len(words), 1), ph, np.int32)
        S, F = [], []
        for lo in range(0, len(words), 4096):
            a = [jnp.array(x[lo:lo + 4096]) for x in (g, s, e, dT[:, None], phv)]
            S.append(np.asarray(vs(*a)))
            F.append([np.asarray(x) for x in vi(*a)])
        S = np.concatenate(S)
        f = np.concatenate([x[0].reshape(-1) for x in F])
        sxx = np.concatenate([x[1].reshape(-1) for x in F])
        w, fw = Mech.stress(sym(g), s, e, dT, np.full(len(words), ph == 2))
        dev = S - np.trace(S, axis1=1, axis2=2)[:, None, None] / 3 * np.eye(3)
        mises = np.sqrt(1.5 * np.sum(dev ** 2, (1, 2)))
        ok = (np.abs(S - w).max((1, 2)) <= 1e-6 * Mech.SIG) & (mises <= Mech.SIG * (1 + 1e-9)) & (np.abs(f - fw) <= 1e-6 * Mech.SIG) & (np.abs(sxx - w[:, 0, 0]) <= 1e-6 * Mech.SIG)
        if k == L - 1 or not ok.all():
            first = words[:, :k + 1]
            for i in range(len(words)) if ok.all() else np.where(~ok)[0][:3]:
                def one(i=i):
                    if not ok[i]:
                        raise CheckFail('increments %s phases %s: stress %s, expected %s; equivalent stress %g' % (first[i].tolist(), job['phases'][:k + 1], S[i].tolist(), w[i].tolist(), mises[i]))
                    return 'plastic' if fw[i] > 0 else 'elastic'
                if i % 5 and ok.all():
                    ctx.evals += 1
                    ctx.keys.add(str(first[i]))
                else:
                    ctx.outcome(ctx.case(first[i].tolist(), one))
            if not ok.all():
                return
        if k == L - 1:
            pick = np.arange(0, len(words), max(1, len(words) // 300))
            T = np.asarray(vt(*[jnp.array(x[pick]) for x in (g, s, e, dT[:, None], phv)]))

            def tang():
                if not np.all(np.isfinite(T)):
                    raise CheckFail('the tangent is not finite at increments %s' % words[pick][~np.isfinite(T).all((1, 2, 3, 4))][:2].tolist())
                h = 1e-9
                for q, i in enumerate(pick):
                    fd = np.zeros((3, 3, 3, 3))
                    kink = False
                    for a in range(3):
                        for b in range(3):
                            d = np.zeros((3, 3))
                            d[a, b] = h
                            up = Mech.stress(sym(g[i] + d), s[i], e[i], dT[i], np.array(ph == 2))
                            dn = Mech.stress(sym(g[i] - d), s[i], e[i], dT[i], np.array(ph == 2))
                            kink = kink or (up[1] > 0) != (dn[1] > 0)
                            fd[:, :, a, b] = (up[0] - dn[0]) / (2 * h)
                    if not kink and not np.abs(T[q] - fd).max() <= 1e-4 * Mech.E0:
                        raise CheckFail('tangent differs from the derivative of the stress at increments %s: %s' % (words[i].tolist(), ref.diff(T[q], fd)))
                return len(pick)
            ctx.case('tangent', tang)
        s, e = S, sym(g)
        ctx.add(states=len(words), transitions=len(words))
    ctx.add(traces=len(words))


def phases(job, ctx):
    """All temperature sequences through the phase update: every quadrature point of the body carries its own sequence."""
    import jax.numpy as jnp
    ns, p, c = setup(ctx, [2, 2, 1])
    prob = ns['problem_u']
    nc, nq = len(c), prob.fes[0].num_quads
    words = np.array(list(itertools.product(range(len(TEMP)), repeat=job['depth'])))
    s = ref.Space('HEX8', p, c, 1)
    # linear temperature fields: the temperature at a point does not depend on other fields
    for k, w in enumerate(words):
        def one():
            prm = [jnp.zeros((nc, nq, 3, 3)), jnp.ones((nc, nq, 3, 3)), jnp.zeros((nc, nq, 1)), jnp.zeros((nc, nq, 1), jnp.int32)]
            ph = np.zeros((nc, nq), int)
            for step, t in enumerate(w):
                x = p[:, :1] / p[:, 0].max()
                T = np.full((len(p), 1), TEMP[t]) if k % 2 else TEMP[t] + (x - .5) * 400. * (k % 3)
                dT = np.sin(np.arange(len(p)) + step)[:, None] * 50.
                out = prob.update_dT_and_phase(jnp.array(dT), jnp.array(T), prm)
                Tq = np.einsum('qn,cnv->cqv', s.N, T[c])[..., 0]
                new = phase_step(ph, Tq, ns['Tl'])
                got = np.asarray(out[3])[..., 0]
                # at the liquidus itself round-off decides: either phase is right
                near = np.abs(Tq - ns['Tl']) <= 1e-6
                other = np.where(ph == 0, 1, 2)
                if not np.all((got == new) | near & ((got == ph) | (got == other))):
                    raise CheckFail('temperatures %s: phases %s, expected %s' % ([TEMP[a] for a in w[:step + 1]], got.tolist(), new.tolist()))
                ph = got
                if not ref.close(np.asarray(out[2])[..., 0], np.einsum('qn,cnv->cqv', s.N, dT[c])[..., 0], 1e-9, 1e-9):
                    raise CheckFail('temperature change at the integration points')
                if not (np.array_equal(out[0], prm[0]) and np.array_equal(out[1], prm[1])):
                    raise CheckFail('stresses or strains changed by the phase update')
                prm = [jnp.asarray(a) for a in out]
                ctx.add(states=1, transitions=1)
            ctx.add(traces=1)
            return sorted(set(ph.reshape(-1).tolist()))
        ctx.outcome(ctx.case(w.tolist(), one, nontrivial=bool(np.any(w))))


LASER = [(.25, .5, 1.), (.6, .3, 1.), (.25, .5, 0.), (.9, .9, 2.)]


def thermal(job, ctx):
    import jax.numpy as jnp
    ns, p, c = setup(ctx, job['n'])
    ns['dt'] = 2e-6
    R = Thermal(ns, p, c)
    prob = ns['problem_T']
    L = p.max(0)

    def walk(path, T_old):
        def one():
            x, y, sw = LASER[path[-1]]
            centre = np.array([x * L[0], y * L[1], L[2]])
            prob.set_params([jnp.array(T_old), jnp.array(centre), sw])
            T = np.asarray(ns['solver'](prob)[0])
            R.check(T, T_old, centre[:2], sw, 2e-6, 'laser history %s' % path)
            ctx.add(states=1, transitions=1, traces=1)
            new.append(T)
            return 'max %.6g' % T.max()
        new = []
        ctx.case(path, one)
        T = new[0] if new else None
        if T is not None and len(path) < job['depth']:
            for a in range(len(LASER)):
                walk(path + [a], T)
    walk([job['first']], np.where(R.bottom[:, None], ns['T0'], ns['T0'] + 900. * p[:, 2:] / L[2] * (1 + p[:, :1] / L[0])))


def fields(p, k):
    x = p / p.max(0)
    T = [np.full(len(p), 1400.), np.full(len(p), 1800.), 1450. + 400. * x[:, 0] * x[:, 2] + 100. * x[:, 1], 1700. - 300. * x[:, 0] + 200. * x[:, 1] * x[:, 2]][k]
    return T[:, None]


def mech_step(ns, R, st, T, what, initial=None):
    """One mechanical step as in the driver; returns the new state and checks it."""
    import jax.numpy as jnp
    prm, T_last, sol = st
    prob = ns['problem_u']
    new = prob.update_dT_and_phase(jnp.array(T - T_last), jnp.array(T), prm)
    prob.set_params(new)
    opts = {'spsolve_solver': {}}
    if sol is not None:
        opts['initial_guess'] = [jnp.array(sol)]
    u = np.asarray(ns['solver'](prob, solver_options=opts)[0])
    out, info = prob.update_stress_strain(jnp.array(u), new)
    check_mech(R, prm, new, out, info, T, T_last, u, ns['Tl'], what)
    return list(out), T, u


def check_mech(R, prm, new, out, info, T, T_last, u, Tl, what):
    s_old, e_old, _, ph_old = [np.asarray(a) for a in prm]
    ph = phase_step(ph_old[..., 0], R.quads(T)[..., 0], Tl)
    near = np.abs(R.quads(T)[..., 0] - Tl) < 1e-6
    if not np.array_equal(np.asarray(new[3])[..., 0][~near], ph[~near]):
        raise CheckFail('%s: phases %s, expected %s' % (what, np.asarray(new[3])[..., 0].tolist(), ph.tolist()))
    ph = np.asarray(new[3])[..., 0]
    dT = R.quads(np.asarray(T) - np.asarray(T_last))[..., 0]
    if not ref.close(np.asarray(new[2])[..., 0], dT, 1e-9, 1e-8):
        raise CheckFail('%s: temperature change passed to the mechanics' % what)
    g = np.einsum('cqnd,cnv->cqvd', R.m.geo[0]['G'], u[R.c])
    S, f = Mech.stress(sym(g), s_old, e_old, dT, ph == 2)
    if not np.all(np.abs(np.asarray(out[0]) - S) <= 1e-6 * Mech.SIG):
        raise CheckFail('%s: stored stress is not the returned one: %s' % (what, ref.diff(out[0], S)))
    if not np.all(np.abs(np.asarray(out[1]) - sym(g)) <= 1e-12):
        raise CheckFail('%s: stored strain' % what)
    if not np.all(np.abs(np.asarray(info[0]).reshape(f.shape) - f) <= 1e-6 * Mech.SIG) or not np.all(np.abs(np.asarray(info[1]).reshape(f.shape) - S[..., 0, 0]) <= 1e-6 * Mech.SIG):
        raise CheckFail('%s: reported yield information' % what)
    fixed = R.bottom
    if not np.abs(u[fixed]).max() <= 1e-9:
        raise CheckFail('%s: the base moves' % what)
    r = R.balance.residual(u.reshape(-1), [S]).reshape(-1, 3)[~fixed]
    scale = max(1e-4, 1e-5 * np.abs(S).max() * 1e-8)
    if not np.abs(r).max() <= scale:
        raise CheckFail('%s: stresses are out of balance by %g N' % (what, np.abs(r).max()))
    return int((f > 0).sum()), sorted(set(ph.reshape(-1).tolist()))


def mech_ref(ns, p, c):
    R = Thermal(ns, p, c)
    R.balance = ref.RefModel([ref.Space('HEX8', p, c, 3)], lambda xp, us, gs, x, ivs: [(ivs[0], None)])
    return R


def mechanics(job, ctx):
    ns, p, c = setup(ctx, job['n'])
    R = mech_ref(ns, p, c)
    import jax.numpy as jnp
    init = [jnp.asarray(a) for a in ns['params_u']]

    def walk(path, st):
        def one():
            T = fields(p, path[-1])
            out = mech_step(ns, R, st, T, 'temperature history %s' % path)
            ctx.add(states=1, transitions=1, traces=1)
            ph = np.asarray(out[0][3])
            ctx.outcome('phases %s' % sorted(set(ph.reshape(-1).tolist())))
            new.append(out)
            return 'largest displacement %.6g' % np.abs(out[2]).max()
        new = []
        ctx.case(path, one, nontrivial=any(path))
        out = new[0] if new else None
        if out is not None and len(path) < job['depth']:
            for a in ([job['pre'][1]] if len(path) == 1 else range(4)):
                walk(path + [a], out)
    walk([job['pre'][0]], (init, np.full((len(p), 1), ns['T0']), None))


SCHED = [dict(P=p) for p in (50., 900., 220., 400., 800., 240., 180., 600.)]


def driver(job, ctx):
    k = job['k']
    ts = np.linspace(0., [1.0e-3, 1.0e-3, .8e-3, .4e-3, 1.2e-3, .2e-3, .9e-3, 1e-3][k], [23, 53, 63, 33, 43, 53, 63, 43][k])

    def one():
        return drive(ctx, job, dict(ts=ts, P=SCHED[k]['P']))
    ctx.case([k], one, timeout=240)


def drive(ctx, job, over):
    log = []

    def wrap_solver(f):
        def g(problem, *a, **kw):
            iv = [np.array(v) for v in problem.internal_vars]
            if iv and iv[0].ndim == 4:
                # plastic flow makes the matrix too ill conditioned for the default iterative solver on some schedules
                kw['solver_options'] = dict(kw.get('solver_options', {}), spsolve_solver={})
            out = f(problem, *a, **kw)
            log.append((type(problem).__name__, iv, np.array(out[0])))
            return out
        return g

    def wrap_save(f):
        def g(fe, sol, path, point_infos=None, cell_infos=None):
            log.append(('save', np.array(sol), {n: np.array(v) for n, v in (point_infos or [])}, {n: np.array(v) for n, v in (cell_infos or [])}, path))
            return f(fe, sol, path, point_infos=point_infos, cell_infos=cell_infos)
        return g
    ns, p, c = setup(ctx, job['n'], over=over, patch=dict(solver=wrap_solver, save_sol=wrap_save), whole=True)
    R = mech_ref(ns, p, c)
    ts, dt = over['ts'], 2e-6
    Lx, Ly, Lz = ns['Lx'], ns['Ly'], ns['Lz']
    T = np.full((len(p), 1), ns['T0'])
    nc, nq = len(c), ns['problem_u'].fes[0].num_quads
    prm = [np.zeros((nc, nq, 3, 3)), np.zeros((nc, nq, 3, 3)), np.zeros((nc, nq, 1)), np.zeros((nc, nq, 1), int)]
    T_last = T
    i = 1 if log and log[0][0] == 'save' else 0
    seen = set()
    for n in range(1, len(ts)):
        what = 'step %d' % n
        if i >= len(log) or log[i][0] != 'Thermal':
            raise CheckFail(what + ': no temperature solve')
        centre = (Lx * .25 + ns['vel'] * ts[n], Ly / 2.)
        T2 = log[i][2]
        R.check(T2, T, centre, 1. if ts[n] < .5 * Lx / ns['vel'] else 0., dt, what)
        i += 1
        ctx.add(states=1, transitions=1)
        if n % 10 == 0:
            if i >= len(log) or log[i][0] != 'Plasticity':
                raise CheckFail(what + ': no displacement solve')
            new, u = log[i][1], log[i][2]
            if not (np.all(np.abs(new[0] - prm[0]) <= 1e-6 * Mech.SIG) and np.all(np.abs(new[1] - prm[1]) <= 1e-12)):
                raise CheckFail(what + ': stresses or strains of the previous step were not passed on')
            g = np.einsum('cqnd,cnv->cqvd', R.m.geo[0]['G'], u[c])
            ph = new[3][..., 0]
            S, f = Mech.stress(sym(g), prm[0], prm[1], R.quads(T2 - T_last)[..., 0], ph == 2)
            if i + 1 >= len(log) or log[i + 1][0] != 'save':
                raise CheckFail(what + ': nothing saved')
            _, _, pi, ci, path = log[i + 1]
            out = [S, sym(g), new[2], new[3]]
            pl, phs = check_mech(R, prm, new, out, (f, S[..., 0, 0]), T2, T_last, u, ns['Tl'], what)
            seen |= set(phs)
            ctx.outcome('plastic' if pl else 'elastic')
            if not (np.array_equal(pi['u'], u) and np.allclose(ci['f_plus'].reshape(-1), f.mean(1), rtol=1e-6, atol=1e-6 * Mech.SIG)
                    and np.allclose(ci['stress_xx'].reshape(-1), S[..., 0, 0].mean(1), rtol=1e-6, atol=1e-6 * Mech.SIG) and np.array_equal(ci['phase'].reshape(-1), ph.max(1))):
                raise CheckFail(what + ': saved fields differ from the state of the step')
            if not os.path.exists(path):
                raise CheckFail('nothing written to ' + path)
            prm, T_last = out, T2
            i += 2
        T = T2
    if i != len(log):
        raise CheckFail('%d records, %d expected' % (len(log), i))
    ctx.add(traces=1)
    ctx.outcome('phases seen %s' % sorted(seen))
    return 'max T %.4g' % T.max()
