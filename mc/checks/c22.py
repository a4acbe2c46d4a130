"""C22: quiet-element bookkeeping.  Explicit-state model: the set of active cells; every history of activations is replayed on the real
incremental hash map, and the resulting systems and the time-stepping driver are compared with recomputation from the set alone."""
import itertools
import os
import numpy as np
from mc import ref, meshes, apps
from mc.checks.c05 import dense
from mc.core import CheckFail

LEVEL = 'model_checking'
RULE = ('one case per activation history (chain of growing sets of active cells), per model state (system assembled for that set) and per toolpath of the driver: external faces, active-face and top-face tables, '
        'quiet nodes, residual, tangent and temperatures against recomputation from the set of active cells; non-trivial: at least one active cell')
BOUND = {'quick': 'all chains of active sets (initial set free, activations in any groups and with idle updates) for meshes of 4, 4, 5 and 6 cells, chains of length 2 for 2x2x2; the systems of every set of 4 meshes at 4 laser settings; all thermal histories of 3 cells; all toolpaths of 3 segments over an alphabet of 5',
         'thorough': 'all chains for 6-cell meshes in 3 shapes, chains of length 3 for 2x2x2, thermal histories of 4 cells, toolpaths of 4 segments over 6'}
ASSUMPTIONS = ['cells never become quiet again (the code asserts it)', 'the example driver is run on generated meshes and toolpaths with a direct linear solver']

MESH = {'2x2x1': ('HEX8', [2, 2, 1]), '4x1x1': ('HEX8', [4, 1, 1]), '3x1x1': ('HEX8', [3, 1, 1]), '5x1x1': ('HEX8', [1, 5, 1]), '3x2x1': ('HEX8', [3, 2, 1]), '1x2x3': ('HEX8', [1, 2, 3]),
        '2x2x2': ('HEX8', [2, 2, 2]), 'tet6': ('TET4', [1, 1, 1]), '1x1x2': ('HEX8', [1, 1, 2])}


def jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for m in ['2x2x1', '4x1x1', '5x1x1', 'tet6'] + ([] if q else ['3x2x1', '1x2x3', '2x2x2']):
        js.append(dict(kind='system', mesh=m))
    full = ['2x2x1', '4x1x1', '5x1x1'] + (['tet6', '3x2x1'] if q else ['tet6', '3x2x1', '1x2x3'])
    for m in full:
        n = cells_of(m)
        parts = 1 if n < 6 else 8
        for k in range(parts):
            js.append(dict(kind='chains', mesh=m, part=k, parts=parts, depth=99, labels=0 if k % 2 else 1))
    for k in range(8):
        js.append(dict(kind='chains', mesh='2x2x2', part=k, parts=8, depth=1 if q else 2, labels=1))
    for s0 in range(8 if q else 16):
        js.append(dict(kind='thermal', mesh='3x1x1' if q else '2x2x1', s0=s0))
    al = [0, 1, 2, 3, 5] if q else list(range(len(SEG)))
    for a in al:
        for b in al:
            js.append(dict(kind='driver', pre=[a, b], depth=3 if q else 4, alphabet=al))
    js.sort(key=lambda j: {'driver': 0, 'system': 1, 'thermal': 2, 'chains': 3}[j['kind']])
    return js


def cells_of(m):
    e, n = MESH[m]
    return int(np.prod(n)) * (6 if e == 'TET4' else 1)


def mesh_arrays(name, labels=1):
    e, n = MESH[name]
    p, c = meshes.mesh(e, n, [1e-3 * k for k in n])
    return e, p, meshes.rotate_cells(e, c, [0, 5, 11, 17, 22]) if labels else c


def make(mod, name, labels=1):
    import jax.numpy as jnp
    from jax_fem.generate_mesh import Mesh
    e, p, c = mesh_arrays(name, labels)
    return build(mod, e, p, c), e, p, c


def build(mod, e, p, c):
    from jax_fem.generate_mesh import Mesh
    return mod.Thermal(Mesh(p, c, ele_type=e), vec=1, dim=3, ele_type=e, dirichlet_bc_info=[[lambda x: False], [0], [lambda x: mod.T0]], location_fns=[lambda x: True])


def run(job, ctx):
    mod = apps.load(ctx, 'quiet_element')
    {'chains': chains, 'system': system, 'thermal': thermal, 'driver': driver}[job['kind']](job, ctx, mod)


# ---------------------------------------------------------------- the model
class Model:
    def __init__(self, e, p, c):
        self.e, self.p, self.c = e, p, c
        self.faces = {}
        for k, f in ref.all_faces(e, c):
            self.faces.setdefault(frozenset(ref.face_vertices(e, c, k, f)), []).append((k, f))

    def external(self, S):
        out = set()
        for cf in self.faces.values():
            act = [x for x in cf if x[0] in S]
            if len(act) == 1:
                out.add(act[0])
        return out

    def top(self, S, z):
        return {(k, f) for k, f in self.external(S) if np.all(np.abs(self.p[list(ref.face_vertices(self.e, self.c, k, f)), 2] - z) < 1e-5)}

    def quiet(self, S):
        return set(range(len(self.p))) - {int(a) for k in S for a in self.c[k]}


def tab(S, n):
    t = np.zeros(n, bool)
    t[sorted(S)] = True
    return t


def faces_set(ext):
    ext = np.asarray(ext)
    if ext.ndim != 2 or ext.shape[1] != 2:
        raise CheckFail('external faces have shape %s' % (ext.shape,))
    s = {tuple(int(a) for a in r) for r in ext}
    if len(s) != len(ext):
        raise CheckFail('an external face is listed twice: %s' % ext.tolist())
    return s


def subsets(items):
    items = list(items)
    return [frozenset(c) for k in range(len(items) + 1) for c in itertools.combinations(items, k)]


# ---------------------------------------------------------------- chains of sets on the real hash map
def chains(job, ctx, mod):
    p, e, pts, cells = make(mod, job['mesh'], job['labels'])
    M = Model(e, pts, cells)
    n = len(cells)
    starts = subsets(range(n))
    for i, S0 in enumerate(starts):
        if i % job['parts'] != job['part']:
            continue
        seen = [0, 0]

        def f():
            ext, cf, hm, inner, allf = mod.initialize_hash_map(p, tab(S0, n))
            compare(ext, S0, [sorted(S0)])
            walk(S0, (hm, inner, allf), cf, [sorted(S0)], 0)
            return '%d histories' % seen[0]

        def compare(ext, S, hist):
            seen[0] += 1
            got, want = faces_set(ext), M.external(S)
            if got != want:
                raise CheckFail('after activations %s the external faces lack %s and contain %s wrongly' % (hist, sorted(want - got)[:6], sorted(got - want)[:6]))

        def walk(S, st, cf, hist, depth):
            if depth >= job['depth']:
                return
            rest = [k for k in range(n) if k not in S]
            for add in subsets(rest):
                if not add and depth > 0:
                    continue  # an idle update leaves the stored maps as they are: explored once per initial set
                hm, inner, allf = dict(st[0]), list(st[1]), list(st[2])
                T = S | add
                ext = mod.update_hash_map(tab(S, n), tab(T, n), cf, hm, inner, allf)
                seen[1] += 1
                h = hist + [sorted(add)]
                compare(ext, T, h)
                if not add:
                    ext2 = mod.update_hash_map(tab(T, n), tab(T, n), cf, hm, inner, allf)
                    compare(ext2, T, h + [[]])
                    if (hm, inner, allf) != (st[0], st[1], st[2]):
                        raise CheckFail('an update without new cells changed the stored maps')
                else:
                    walk(T, (hm, inner, allf), cf, h, depth + 1)
        ctx.case([job['mesh'], job['labels'], sorted(S0)], f, nontrivial=len(S0) > 0, timeout=300)
        ctx.add(states=1, transitions=seen[1], traces=seen[0])


# ---------------------------------------------------------------- systems
class RefThermal:
    k = 15.

    def __init__(self, mod, e, p, c):
        self.M = Model(e, p, c)
        self.mod = mod
        self.s = ref.Space(e, p, c, 1)
        self.fs = ref.all_faces(e, c)
        self.g = self.s.geometry()
        self.fg = self.s.face_geometry(self.fs)
        s, g = self.s, self.g
        self.Kc = np.einsum('cqnd,cqmd,cq->cnm', g['G'], g['G'], g['W'])
        self.Mc = np.einsum('qn,qm,cq->cnm', s.N, s.N, g['W'])

    def system(self, S, Told, dt, lc, switch, ext=None, top=None):
        """Matrix, right hand side of the linear problem before Dirichlet rows: residual = A T - b."""
        s, mod = self.s, self.mod
        n = len(s.points)
        A, b = np.zeros((n, n)), np.zeros(n)
        for k in S:
            I = s.cells[k]
            m = mod.rho * mod.Cp / dt * self.Mc[k]
            A[np.ix_(I, I)] += self.k * self.Kc[k] + m
            b[I] += m @ Told[I]
        ext = self.M.external(S) if ext is None else ext
        top = self.M.top(S, lc[2]) if top is None else top
        for j, (k, f) in enumerate(self.fs):
            if (k, f) not in ext:
                continue
            I = s.cells[k]
            N, W, x = self.fg['N'][j], self.fg['W'][j], self.fg['x'][j]
            q = mod.h * (mod.T0 - N @ Told[I])
            if (k, f) in top:
                d2 = (x[:, 0] - lc[0]) ** 2 + (x[:, 1] - lc[1]) ** 2
                q = q + 2 * mod.eta * mod.P / (np.pi * mod.rb ** 2) * np.exp(-2 * d2 / mod.rb ** 2) * switch
            b[I] += np.einsum('q,qn,q->n', q, N, W)
        return A, b

    def solve(self, S, Told, dt, lc, switch):
        A, b = self.system(S, Told, dt, lc, switch)
        for i in self.M.quiet(S):
            A[i] = 0.
            A[i, i] = 1.
            b[i] = self.mod.T0
        return np.linalg.solve(A, b)


def check_tables(mod, p, R, S, z):
    n = len(R.M.c)
    ext = np.array(sorted(R.M.external(S)), int).reshape(-1, 2)
    got = np.asarray(mod.get_active_face_truth_tab(p, ext, z))
    bd = [tuple(int(a) for a in r) for r in np.asarray(p.boundary_inds_list[0])]
    if sorted(bd) != sorted(R.fs):
        raise CheckFail('the surface set of all faces is not the set of all (cell, face) pairs')
    want = np.array([[b in R.M.external(S), b in R.M.top(S, z)] for b in bd])
    if got.shape != want.shape or not np.array_equal(got, want):
        raise CheckFail('active-face table for active cells %s at height %g: rows %s differ' % (sorted(S), z, np.where((got != want).any(1))[0].tolist() if got.shape == want.shape else got.shape))
    q = np.asarray(mod.get_quiet_point_inds_set(p, tab(S, n)))
    if sorted(q.tolist()) != sorted(R.M.quiet(S)):
        raise CheckFail('quiet nodes for active cells %s: %s instead of %s' % (sorted(S), sorted(q.tolist()), sorted(R.M.quiet(S))))
    return got, q


def close(a, b, what):
    if not ref.close(a, b, 1e-8, 1e-12):
        raise CheckFail(what + ': ' + ref.diff(a, b))


def system(job, ctx, mod):
    import jax.numpy as jnp
    from jax_fem.solver import get_A
    p, e, pts, cells = make(mod, job['mesh'])
    R = RefThermal(mod, e, pts, cells)
    n = len(cells)
    N = len(pts)
    hi = pts.max(0)
    lasers = [(hi * [.5, .5, 1.], 1.), (hi * [.1, .9, 1.], 1.), (hi * [.5, .5, 1.], 0.), (hi * [.5, .2, .5 if MESH[job['mesh']][1][2] == 2 else 0.], 1.)]
    for S in subsets(range(n)):
        def f(S=S, lc=None, sw=0., k=0):
            Told = 300. + 100. * np.sin(1. + 1.7 * np.arange(N) + k)
            T = 310. + 80. * np.cos(.3 + 2.1 * np.arange(N) + k)
            ft, q = check_tables(mod, p, R, S, lc[2])
            dt = [.01, .5][k % 2]
            p.set_params([jnp.asarray(Told)[:, None], dt, lc, sw, q, tab(S, n), ft])
            fe = p.fes[0]
            nodes = np.asarray(fe.node_inds_list[0])
            if sorted(nodes.tolist()) != sorted(R.M.quiet(S)) or not np.allclose(np.asarray(fe.vals_list[0]), mod.T0) or np.any(np.asarray(fe.vec_inds_list[0])):
                raise CheckFail('Dirichlet conditions of the quiet nodes: %s' % nodes.tolist())
            res = np.asarray(p.newton_update([jnp.asarray(T)[:, None]])[0]).reshape(-1)
            A, b = R.system(S, Told, dt, lc, sw)
            close(res, A @ T - b, 'residual with active cells %s' % sorted(S))
            W = A.copy()
            for i in R.M.quiet(S):
                W[i] = 0.
                W[i, i] = 1.
            close(dense(get_A(p)), W, 'tangent with active cells %s' % sorted(S))
            return 'norm %.4g' % np.linalg.norm(res)
        for k, (lc, sw) in enumerate(lasers):
            if n > 5 and k >= 1 and (len(S) + k) % 3:
                continue
            ctx.case([job['mesh'], sorted(S), k], lambda S=S, lc=lc, sw=sw, k=k: f(S, lc, sw, k), nontrivial=len(S) > 0)
        ctx.add(states=1)


# ---------------------------------------------------------------- thermal histories
def thermal(job, ctx, mod):
    import jax.numpy as jnp
    from jax_fem.solver import solver
    p, e, pts, cells = make(mod, job['mesh'])
    R = RefThermal(mod, e, pts, cells)
    n = len(cells)
    hi = pts.max(0)
    S0 = frozenset(k for k in range(n) if job['s0'] >> k & 1)

    def step(T, S, ext, k):
        lc = hi * [.2 + .3 * (k % 3), .5, 1.]
        dt, sw = [.02, .1][k % 2], float(k % 3 != 2)
        ft = mod.get_active_face_truth_tab(p, ext, lc[2])
        q = mod.get_quiet_point_inds_set(p, tab(S, n))
        p.set_params([jnp.asarray(T)[:, None], dt, lc, sw, q, tab(S, n), ft])
        got = np.asarray(solver(p, {'spsolve_solver': {}})[0]).reshape(-1)
        want = R.solve(S, T, dt, lc, sw)
        if not ref.close(got, want, 1e-7, 1e-6):
            raise CheckFail('temperatures with active cells %s in step %d: %s' % (sorted(S), k, ref.diff(got, want)))
        return want

    def f(groups):
        T = np.full(len(pts), mod.T0)
        S = S0
        ext, cf, hm, inner, allf = mod.initialize_hash_map(p, tab(S, n))
        T = step(T, S, ext, 0)
        for k, g in enumerate(groups):
            Sn = S | frozenset(g)
            if Sn != S:
                ext = mod.update_hash_map(tab(S, n), tab(Sn, n), cf, hm, inner, allf)
            T = step(T, Sn, ext, k + 1)
            S = Sn
            ctx.add(transitions=1)
        ctx.add(traces=1)
        return 'final max %.4g' % T.max()

    def hist(rest):
        yield []
        if not rest:
            return
        for g in subsets(rest)[1:]:
            for h in hist([k for k in rest if k not in g]):
                yield [sorted(g)] + h
    for h in hist([k for k in range(n) if k not in S0]):
        ctx.case([job['mesh'], sorted(S0), h], lambda: f(h), nontrivial=bool(S0 or h))
        ctx.case([job['mesh'], sorted(S0), h, 'idle'], lambda: f([[]] + h + [[]]), nontrivial=bool(S0 or h))


# ---------------------------------------------------------------- the driver on generated toolpaths
# segment: (start x, height, end x, on/off) in cells and layers: off segments only move the laser
SEG = [(.0317, 1, .2613, 1), (3.5171, 1, 3.5171, 0), (3.5171, 1, 3.2871, 1), (.2613, 2, .4871, 1), (3.5171, 2, 3.5171, 0), (2.0291, 2, 1.7811, 1)]


def driver(job, ctx, mod):
    import meshio
    import jax.numpy as jnp
    import jax_fem.solver as sv
    # thin wall in millimetres: substrate 19..20, two layers of 0.7
    nx = 4
    lay = [19., 20., 20.7, 21.4]
    p, c = meshes.mesh('HEX8', [nx, 1, 3], [float(nx), 1., 3.])
    p = p.copy()
    p[:, 2] = np.interp(p[:, 2], [0, 1, 2, 3], lay)
    p[:, 1] -= .5
    pm = p / 1e3
    cent = pm[c].mean(1)
    R = RefThermal(mod, 'HEX8', pm, c)
    d = os.path.join(ctx.scratch, 'drv')
    for s in ('abaqus', 'toolpath', 'vtk'):
        os.makedirs(os.path.join(d, s), exist_ok=True)
    meshio.write(os.path.join(d, 'abaqus', 'thinwall.inp'), meshio.Mesh(p, [('hexahedron', c)]))
    mod.input_dir, mod.vtk_dir = d, os.path.join(d, 'vtk')
    cache = {}

    def cached(*a, **k):  # one problem per slice (compiled once); its per-run state is set by set_params in every step
        if 'p' not in cache:
            cache['p'] = Thermal(*a, **k)
        cache['p'].fes[0].dirichlet_bc_info = k['dirichlet_bc_info']
        return cache['p']
    Thermal, mod.Thermal = mod.Thermal, cached
    mod.save_sol = lambda *a, **k: None

    def f(seq):
        rows, t, exp = [[0., 0., 0., 0., 0]], 0., []
        x0, x, h, _ = SEG[seq[0]][0], None, SEG[seq[0]][1], None
        rows.append([.5, SEG[seq[0]][0], 0., .7 * h, 0])
        t = .5
        S = frozenset(int(k) for k in np.where(cent[:, 2] <= 20e-3)[0])
        lc = None
        for i in seq:
            xa, hh, xb, on = SEG[i]
            xa = rows[-1][1]  # a segment starts where the last one ended
            t += .05
            rows.append([t, xb, 0., .7 * hh, on])
            if on:
                m = round(abs(xb - xa) / .125)
                # the driver measures the segment in three dimensions
                m = round(float(np.linalg.norm([xb - xa, 0., .7 * hh - rows[-2][3]])) / .125)
                ts = np.linspace(t - .05, t, m + 1)
                xs = np.interp(ts, [t - .05, t], [xa * 1e-3, xb * 1e-3])
                for j in range(m):
                    lc = np.array([xs[j], 0., .7e-3 * hh + 20e-3])
                    dd = (cent[:, 0] - lc[0]) ** 2 + cent[:, 1] ** 2
                    assert np.abs(dd - 1e-6).min() > 1e-10, 'choose other waypoints'
                    new = {int(k) for k in np.where((cent[:, 2] < lc[2]) & (dd <= 1e-6))[0]}
                    S = S | new
                    exp.append((S, lc, ts[j + 1] - ts[j], 1.))
            else:
                for j in range(10):
                    exp.append((S, lc, .005, 0.))
        np.savetxt(os.path.join(d, 'toolpath', 'thinwall_toolpath.crs'), np.array(rows), fmt='%.8f')
        calls = []

        def fake(problem, solver_options={}):
            k = len(calls)
            calls.append(1)
            if k >= len(exp):
                raise CheckFail('more time steps than the toolpath has')
            S, lc, dt, sw = exp[k]
            A, b = R.system(S, st['T'], dt, lc if lc is not None else np.zeros(3), sw, top=None if sw else set())
            q = R.M.quiet(S)
            nodes = np.asarray(problem.fes[0].node_inds_list[0])
            if sorted(nodes.tolist()) != sorted(q):
                raise CheckFail('step %d: Dirichlet nodes %s, quiet nodes %s' % (k, sorted(nodes.tolist()), sorted(q)))
            T = st['T'] + 3. * np.sin(1. + np.arange(len(pm)))
            res = np.asarray(problem.compute_residual([jnp.asarray(T)[:, None]])[0]).reshape(-1)
            want = A @ T - b
            if not ref.close(res, want, 1e-6, 1e-10):
                raise CheckFail('step %d (active %s, laser %s, switch %g): residual of the step: %s' % (k, sorted(S), lc, sw, ref.diff(res, want)))
            for i in q:
                A[i], b[i] = 0., mod.T0
                A[i, i] = 1.
            st['T'] = np.linalg.solve(A, b)
            ctx.add(transitions=1)
            return [jnp.asarray(st['T'])[:, None]]
        st = dict(T=np.full(len(pm), mod.T0))
        mod.solver = fake
        mod.quiet_element_simulation()
        if len(calls) != len(exp):
            raise CheckFail('%d time steps instead of %d' % (len(calls), len(exp)))
        ctx.add(traces=1)
        return '%d steps, final active %d, max T %.4g' % (len(calls), len(S), st['T'].max())
    for tail in itertools.product(job['alphabet'], repeat=job['depth'] - len(job['pre'])):
        seq = job['pre'] + list(tail)
        ctx.case(['toolpath', seq], lambda: f(seq))
