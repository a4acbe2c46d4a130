"""C35: the tutorials (docs/source/learn).  All code cells of every notebook are executed in order on enumerated meshes, loads and parameters; the states and
gradients they compute are compared with independent references."""
import itertools
import os
import sys
import types
import numpy as np
import meshio
from mc import ref, meshes, apps
from mc.core import CheckFail
from mc.checks.c33 import spy, Mute, derivative, perm
from mc.checks.c34 import saver, mesh_of, where

LEVEL = 'exploration'
RULE = ('one case per run of a notebook (all code cells in order) on a mesh, load word or parameter field: the solution against the residual of an independent model, saved data against the solution, '
        'every component of every gradient against the adjoint of the model or extrapolated differences; non-trivial: the solution or gradient is not zero')
BOUND = {'quick': 'Poisson, elasticity, hyperelasticity: 2 meshes each; plasticity: all load words of length 3 over 3 levels; gradients: 2 parameter fields each, all components; optimisation loops: 3 iterations',
         'thorough': '4 meshes each; load words of length 4 over 3 levels; 4 parameter fields; 5 iterations'}
ASSUMPTIONS = ['meshes are smaller than those of the notebooks', 'PARDISO is not installed; its interface is played by another sparse direct solver', 'cells that quote printed output are not executed']


def jobs(tier, seed):
    q = tier == 'quick'
    js = [dict(kind='plasticity', words=[list(w) for w in itertools.product(range(3), repeat=3 if q else 4)][i::4]) for i in range(4)]
    js += [dict(kind=k, k=i) for k in ('codesign', 'topology', 'shape', 'poisson', 'elasticity', 'hyper', 'gradients', 'source', 'traction', 'thermal') for i in range(2 if q else 4)]
    js = [j for j in js if j['kind'] not in ('codesign', 'topology') or j['k'] < (1 if q else 2)]
    for j in js:
        if j['kind'] in ('topology', 'codesign'):
            j['iters'] = 3 if q else 5
    return js


def run(job, ctx):
    if job['kind'] == 'plasticity':
        for w in job['words']:
            ctx.case(['plasticity', w], lambda: plasticity(ctx, w), timeout=120)
    else:
        ctx.case([job['kind'], job['k']], lambda: globals()[job['kind']](ctx, job['k'], *([job['iters']] if 'iters' in job else [])), timeout=600)


def plane(k, size=(1., 1.)):
    p, c = meshes.mesh('QUAD4', [[3, 2], [2, 4], [4, 4], [5, 3]][k])
    p = p / p.max(0)
    inner = np.all((p > 1e-9) & (p < 1 - 1e-9), axis=1)
    p = p + np.where(inner[:, None], .05 * np.stack([np.sin(7 * p[:, 0] + k), np.cos(5 * p[:, 1])], 1), 0.)
    return p * size, meshes.rotate_cells('QUAD4', np.asarray(c), [0, 3, 1])


def block(k, size=(1., 1., 1.), ele='HEX8'):
    p, c = meshes.mesh(ele, [[2, 1, 1], [1, 2, 2], [3, 1, 1], [2, 2, 1]][k])
    return p / p.max(0) * np.asarray(size, float), np.asarray(c)


def faces(ele, p, c, inside):
    out = [(a, b) for a, b in ref.all_faces(ele, c) if all(inside(p[i]) for i in ref.face_vertices(ele, c, a, b))]
    assert out
    return out


def near(d, v):
    return lambda x: abs(x[d] - v) < 1e-5


def neo(F, E, nu=.3):
    """first Piola stress of the tutorials' neo-Hookean energy; E a scalar or a field"""
    E = np.asarray(E)[..., None, None] if np.ndim(E) else E
    mu, ka = E / (2 * (1 + nu)), E / (3 * (1 - 2 * nu))
    J = np.linalg.det(F)[..., None, None]
    inv = np.swapaxes(np.linalg.inv(F), -1, -2)
    I1 = np.sum(F * F, axis=(-1, -2))[..., None, None]
    return mu * np.exp(-2. / 3 * np.log(J)) * (F - I1 / 3 * inv) + ka * (J - 1) * J * inv


def balanced(R, u, bc, tol, ivs=(), sivs=None):
    u = np.asarray(u).reshape(-1)
    for d, v in bc:
        if not np.abs(u[d] - v).max() <= max(1e-7, tol):
            raise CheckFail('prescribed value missed by %g' % np.abs(u[d] - v).max())
    r = np.linalg.norm(R.imposed(u, bc, ivs, sivs))
    if not r <= tol:
        raise CheckFail('residual %g' % r)
    if not np.abs(u).max() > 0:
        raise CheckFail('zero solution')
    return u


def only(saves, sol):
    if len(saves) != 1 or not np.array_equal(saves[0][0], np.asarray(sol)):
        raise CheckFail('%d files, or not the solution' % len(saves))
    return saves[0][1]


def adjoint(R, u, bc, dJ, ivs=(), sivs=None):
    """gradient of J with respect to all entries of the (last) volume or surface field"""
    lam = np.linalg.solve(R.imposed_jacobian(u, bc, ivs, sivs).T, dJ)
    lam[np.array(list(R.bc_map(bc)), int)] = 0.
    src = sivs[0][0] if sivs else ivs[0]
    out = np.zeros(src.size)
    for i in range(src.size):
        z = src.astype(complex).reshape(-1)
        z[i] += 1e-30j
        z = z.reshape(src.shape)
        out[i] = -lam @ (R.residual(u.astype(complex), [z], None) if not sivs else R.residual(u.astype(complex), ivs, [[z]])).imag / 1e-30
    return out.reshape(src.shape)


# ---------------------------------------------------------------- forward problems
def poisson(ctx, k):
    p, c = plane(k)
    saves = []
    ns = apps.notebook(ctx, 'poisson', patch=dict(rectangle_mesh=mesh_of(p, c, 'quad'), save_sol=saver(saves)))
    s = ref.Space('QUAD4', p, c, 1)
    top = faces('QUAD4', p, c, near(1, 1.)), faces('QUAD4', p, c, near(1, 0.))
    src = lambda x: -10 * np.exp(-((x[..., 0] - .5) ** 2 + (x[..., 1] - .5) ** 2) / .02)[..., None]
    R = ref.RefModel([s], lambda xp, us, gs, x, ivs: [(gs[0], src(x))], [(f, lambda xp, us, gs, x, ivs: [-np.sin(5 * x[..., 0])[..., None]]) for f in top])
    u = balanced(R, ns['sol_list'][0], [(where(p, 0, v), 0. * where(p, 0, v)) for v in (0., 1.)], 1e-5)
    only(saves, ns['sol_list'][0])
    return 'max %.4g' % np.abs(u).max()


def hooke(g, E, nu):
    mu, la = E / (2 * (1 + nu)), E * nu / ((1 + nu) * (1 - 2 * nu))
    e = (g + np.swapaxes(g, -1, -2)) / 2
    return la * np.trace(e, axis1=-2, axis2=-1)[..., None, None] * np.eye(g.shape[-1]) + 2 * mu * e


def elasticity(ctx, k):
    p, c = block(k, (10., 2., 2.), 'TET10')
    saves = []
    import scipy.sparse.linalg
    sys.modules['pypardiso'] = types.SimpleNamespace(spsolve=lambda A, b: scipy.sparse.linalg.spsolve(A.tocsc(), b))
    try:
        ns = apps.notebook(ctx, 'linear_elasticity', patch=dict(box_mesh_gmsh=mesh_of(p, c, 'tetra10'), save_sol=saver(saves)))
    finally:
        del sys.modules['pypardiso']
    s = ref.Space('TET10', p, c, 3)
    R = ref.RefModel([s], lambda xp, us, gs, x, ivs: [(hooke(gs[0], 70e3, .3), None)], [(faces('TET10', p, c, near(0, 10.)), lambda xp, us, gs, x, ivs: [0 * us[0] + np.array([0., 0., 100.])])])
    lft = where(p, 0, 0.)
    u = balanced(R, ns['sol_list'][0], [(3 * lft + i, 0. * lft) for i in range(3)], 1e-5)
    vm = only(saves, ns['sol_list'][0])['vm_stress']
    geo = s.geometry()
    sig = hooke(np.einsum('cnv,cqnd->cqvd', u.reshape(-1, 3)[c], geo['G']), 70e3, .3)
    sig = np.einsum('cqij,cq->cij', sig, geo['W']) / geo['W'].sum(1)[:, None, None]
    dev = sig - np.trace(sig, axis1=1, axis2=2)[:, None, None] * np.eye(3) / 3
    if not ref.close(vm, np.sqrt(1.5 * np.sum(dev ** 2, axis=(1, 2))), 1e-8):
        raise CheckFail('von Mises stress: %s' % ref.diff(vm, np.sqrt(1.5 * np.sum(dev ** 2, axis=(1, 2)))))
    return 'max %.4g' % np.abs(u).max()


def direct(f):
    """the Krylov solver of the notebook breaks down (and raises) on meshes of two cells"""
    return lambda problem, solver_options: f(problem, solver_options={'spsolve_solver': {}})


def hyper(ctx, k):
    p, c = block(k)
    saves = []
    ns = apps.notebook(ctx, 'hyperelasticity', patch=dict(box_mesh_gmsh=mesh_of(p, c), solver=direct, save_sol=saver(saves)))
    R = ref.RefModel([ref.Space('HEX8', p, c, 3)], lambda xp, us, gs, x, ivs: [(neo(gs[0] + np.eye(3), 10.), None)])
    l, r = where(p, 0, 0.), where(p, 0, 1.)
    a, y, z = np.pi / 3, p[l, 1] - .5, p[l, 2] - .5
    bc = [(3 * l, 0. * l), (3 * l + 1, (np.cos(a) * y - np.sin(a) * z - y) / 2), (3 * l + 2, (np.sin(a) * y + np.cos(a) * z - z) / 2)] + [(3 * r + i, 0. * r) for i in range(3)]
    u = balanced(R, ns['sol_list'][0], bc, 1e-5)
    only(saves, ns['sol_list'][0])
    return 'max %.4g' % np.abs(u).max()


# ---------------------------------------------------------------- plasticity
def j2(g, sig, eps, E, sig0, dim=3):
    """perfectly plastic radial return of the tutorials"""
    e = (g + np.swapaxes(g, -1, -2)) / 2
    mu, la = E / 2.6, E * .3 / (1.3 * .4)
    mu, la = [np.asarray(v)[..., None, None] if np.ndim(v) else v for v in (mu, la)]
    d = e - eps
    tr = sig + la * np.trace(d, axis1=-2, axis2=-1)[..., None, None] * np.eye(dim) + 2 * mu * d
    s = tr - np.trace(tr, axis1=-2, axis2=-1)[..., None, None] * np.eye(dim) / dim
    n = np.sqrt(1.5 * np.sum(s * s, axis=(-2, -1)))
    f = n - sig0
    fac = np.where(f > 0, f / np.where(n == 0, 1, n), 0.)
    return tr - fac[..., None, None] * s, e, f


def plasticity(ctx, word):
    import jax.numpy as jnp
    p, c = meshes.mesh('HEX8', [2, 1, 1])
    p = p / p.max(0) * 10.
    p[(p[:, 0] > 1) & (p[:, 0] < 9)] += [.6, 0., 0.]
    disps = np.array([[.02, .06, -.03][i] for i in word])
    log, saves = [], []

    def dense(A, b, x0, opts):
        # sideways motions are free in this tutorial; Krylov methods cope with that only on larger meshes
        ip, ix, v = A.getValuesCSR()
        import scipy.sparse
        return jnp.asarray(np.linalg.lstsq(scipy.sparse.csr_array((v, ix, ip), shape=A.getSize()).toarray(), np.asarray(b), rcond=1e-10)[0])

    def solve(f):
        def g(problem, solver_options):
            out = f(problem, solver_options={'custom_solver': dense})
            log.append((problem, solver_options, out))
            return out
        return g
    ns = apps.notebook(ctx, 'plasticity', over=dict(disps=jnp.array(disps)), patch=dict(box_mesh_gmsh=mesh_of(p, c), solver=solve, save_sol=saver(saves), plt=lambda m: Mute()))
    if len(log) != len(disps) or len(saves) != len(disps):
        raise CheckFail('%d solves and %d files' % (len(log), len(saves)))
    geo = ref.Space('HEX8', p, c, 3).geometry()
    sig = eps = np.zeros((len(c), 8, 3, 3))
    ys = 0
    for i, (d, (_, _, out), (sv, _, name)) in enumerate(zip(disps, log, saves)):
        u = np.asarray(out[0])
        if not np.array_equal(u, sv) or '%03d' % i not in name:
            raise CheckFail('file %s of step %d' % (name, i))
        bc = [(3 * where(p, 2, 0.) + 2, 0.), (3 * where(p, 2, 10.) + 2, d)]
        for dd, v in bc:
            if not np.abs(u.reshape(-1)[dd] - v).max() < 1e-9:
                raise CheckFail('prescribed displacement missed in step %d' % i)
        sig, eps, f = j2(np.einsum('cnv,cqnd->cqvd', u[c], geo['G']), sig, eps, 70e3, 250.)
        ys += int((f > 0).sum())
        r = np.zeros_like(u)
        np.add.at(r, c, np.einsum('cqij,cqnj,cq->cni', sig, geo['G'], geo['W']))
        r = r.reshape(-1)
        r[np.concatenate([dd for dd, _ in bc])] = 0.
        if not np.abs(r).max() < 1e-3:
            raise CheckFail('forces out of balance by %g in step %d' % (np.abs(r).max(), i))
        avg = np.einsum('cqij,cq->ij', sig, geo['W']) / geo['W'].sum()
        if not ref.close(np.asarray(ns['avg_stresses'][i]), avg, 1e-8, 1e-7):
            raise CheckFail('average stress in step %d: %s' % (i, ref.diff(np.asarray(ns['avg_stresses'][i]), avg)))
    ctx.add(states=len(disps), transitions=len(disps), traces=1)
    return '%d points yield' % ys


# ---------------------------------------------------------------- gradients
def gradients(ctx, k):
    import jax.numpy as jnp
    p, c = block(k)
    log = []
    rho0 = .5 + .2 * np.sin(1. + np.arange(len(c) * 8)).reshape(len(c), 8)
    ns = apps.notebook(ctx, 'compute_gradients', over=dict(params=[1e6, jnp.array(rho0), 1.]), patch=dict(box_mesh_gmsh=mesh_of(p, c), save_sol=lambda f: lambda *a, **kw: None, plt=lambda m: Mute(), jax=spy(log)))
    (f, _, (dE, drho, dsc)), = [l for l in log if isinstance(l[2], (list, tuple)) and len(l[2]) == 3]
    R = ref.RefModel([ref.Space('HEX8', p, c, 3)], lambda xp, us, gs, x, ivs: [(neo(gs[0] + np.eye(3), 1e6 * ivs[0]), None)],
                     [(faces('HEX8', p, c, near(2, 1.)), lambda xp, us, gs, x, ivs: [0 * us[0] + np.array([0., 0., 1e3])])])
    b = where(p, 2, 0.)
    bc = [(3 * b, 0. * b), (3 * b + 1, 0. * b), (3 * b + 2, 1. + 0. * b)]
    iv = perm(rho0, ns['problem'], R, p, c)
    u = R.newton(bc, [iv], u0=np.tile([0., 0., 1.], len(p)), tol=1e-7)
    v = np.asarray(ns['sol_list'][0]).reshape(-1)
    if not ref.close(v, u, 1e-6):
        raise CheckFail('solution %s' % ref.diff(v, u))
    want = adjoint(R, u, bc, 2 * u, [iv])
    got = perm(np.asarray(drho), ns['problem'], R, p, c)
    if not ref.close(got, want, 1e-4, 1e-9):
        raise CheckFail('gradient %s' % ref.diff(got, want))
    lam = np.linalg.solve(R.imposed_jacobian(u, bc, [iv]).T, 2 * u)
    if not abs(float(dsc) - lam[3 * b + 2].sum()) < 1e-5 * abs(lam[3 * b + 2].sum()):
        raise CheckFail('derivative with respect to the boundary value %g, %g' % (float(dsc), lam[3 * b + 2].sum()))
    return 'max %.4g, %.6g' % (np.abs(want).max(), float(dsc))


def source(ctx, k):
    import jax.numpy as jnp
    n = [(12, 3), (3, 12), (11, 2), (6, 6)][k]
    p, c = meshes.mesh('QUAD4', n)
    p, c = p / p.max(0), np.asarray(c)
    log = []
    th = 1e5 * (1 + .5 * np.sin(np.arange(len(c) * 4.))).reshape(len(c), 4)
    ns = apps.notebook(ctx, 'source_field_identification', over={'θ_ini': jnp.array(th)}, patch=dict(rectangle_mesh=mesh_of(p, c, 'quad'), jax=spy(log)), skip=['grad_value['])
    (f, _, g), = log
    s = ref.Space('QUAD4', p, c, 1)
    R = ref.RefModel([s], lambda xp, us, gs, x, ivs: [(gs[0], ivs[0][..., None])])
    bc = [(where(p, 0, v), 0. * where(p, 0, v)) for v in (0., 1.)]
    x, W = R.geo[0]['x'], R.geo[0]['W']
    true = -1e5 * np.exp(-((x[..., 0] - .5) ** 2 + (x[..., 1] - .5) ** 2) / .02)
    iv = perm(th, ns['problem'], R, p, c)
    K = R.imposed_jacobian(np.zeros(R.n), bc, [iv])
    ut, u = [np.linalg.solve(K, -R.imposed(np.zeros(R.n), bc, [z])) for z in (true, iv)]
    e = (u - ut)[c] @ s.N.T
    if not abs(float(ns['J_value']) - np.sum(e ** 2 * W)) <= 1e-5 * np.sum(e ** 2 * W):
        raise CheckFail('objective %.9g, %.9g' % (float(ns['J_value']), np.sum(e ** 2 * W)))
    dJ = np.zeros(R.n)
    np.add.at(dJ, c, 2 * np.einsum('cq,cq,qn->cn', e, W, s.N))
    want = adjoint(R, u, bc, dJ, [iv])
    got = perm(np.asarray(g), ns['problem'], R, p, c)
    if not ref.close(got, want, 1e-4):
        raise CheckFail('gradient %s' % ref.diff(got, want))
    return 'max %.4g' % np.abs(want).max()


def traction(ctx, k):
    import jax.numpy as jnp
    n = [11, 12, 13, 14][k]
    p, c = meshes.mesh('HEX8', [n, 1, 1])
    p, c = p / p.max(0) * [1., 1., .05], np.asarray(c)
    log = []
    ini = 1e4 * (1 + .5 * np.cos(np.arange(n * 4.))).reshape(n, 4)
    ns = apps.notebook(ctx, 'traction_force_identification', over={'traction_ini': jnp.array(ini)}, patch=dict(box_mesh_gmsh=mesh_of(p, c), jax=spy(log), plt=lambda m: Mute()), skip=['grad_value['])
    (f, _, g), = [l for l in log if np.shape(l[2]) == ini.shape]
    s = ref.Space('HEX8', p, c, 3)
    fs = faces('HEX8', p, c, near(1, 1.))
    R = ref.RefModel([s], lambda xp, us, gs, x, ivs: [(neo(gs[0] + np.eye(3), 1e6), None)],
                     [(fs, lambda xp, us, gs, x, ivs: [np.stack([0 * ivs[0], -ivs[0], 0 * ivs[0]], -1)])])
    b = where(p, 1, 0.)
    bc = [(3 * b + i, 0. * b) for i in range(3)]
    x = R.fgeo[0][0]['x']
    xc = np.asarray(ns['problem'].physical_surface_quad_points[0]).reshape(-1, 3)
    idx = np.abs(xc[:, None] - x.reshape(1, -1, 3)).max(-1).argmin(0)
    if sorted(idx) != list(range(len(xc))):
        raise CheckFail('surface points')
    place = lambda a: np.asarray(a).reshape(-1)[idx].reshape(x.shape[:2])
    true = 1e5 * np.exp(-(x[..., 0] - .5) ** 2 / (2 * .2 ** 2))
    if not ref.close(place(ns['traction_true']), true, 1e-9):
        raise CheckFail('traction')
    ut = R.newton(bc, (), [[true]], tol=1e-8)
    v = np.asarray(ns['sol_list_true'][0]).reshape(-1)
    if not ref.close(v, ut, 1e-6):
        raise CheckFail('solution %s' % ref.diff(v, ut))
    u = R.newton(bc, (), [[place(ini)]], tol=1e-8)
    W = R.geo[0]['W']
    e = np.einsum('qn,cnv->cqv', s.N, (u - ut).reshape(-1, 3)[c])
    dJ = np.zeros((len(p), 3))
    np.add.at(dJ, c, 2 * np.einsum('cqv,cq,qn->cnv', e, W, s.N))
    want = adjoint(R, u, bc, dJ.reshape(-1), (), [[place(ini)]])
    if not ref.close(place(g), want, 2e-4):
        raise CheckFail('gradient %s' % ref.diff(place(g), want))
    return 'max %.4g' % np.abs(want).max()


def quarter(k):
    """quarter plate with a hole of radius 0.1: rings of triangles"""
    nr, nt = [(2, 10), (3, 10), (2, 11), (4, 12)][k]
    pts, tri = [], []
    for i in range(nr + 1):
        for j in range(nt + 1):
            a = np.pi / 2 * j / nt
            d = np.array([np.cos(a), np.sin(a)])
            q = d / d.max()
            pts.append(.1 * d + (q - .1 * d) * (i / nr) ** 1.5)
    pts = np.array(pts)
    pts[np.abs(pts) < 1e-12] = 0.
    for i in range(nr):
        for j in range(nt):
            a, b, e, f = i * (nt + 1) + j, (i + 1) * (nt + 1) + j, (i + 1) * (nt + 1) + j + 1, i * (nt + 1) + j + 1
            tri += [[a, b, e], [a, e, f]]
    return pts, np.array(tri)


def thermal(ctx, k):
    import jax.numpy as jnp
    p, c = quarter(k)
    corner = int(np.argmax(p.sum(1)))
    hole = np.where(np.abs(np.sum(p * p, 1) - .01) < 1e-3)[0]
    th = 1e3 * (1 + .4 * np.sin(1. + 2 * np.arange(len(hole))))
    log = []

    def files(d):
        meshio.Mesh(np.hstack([p, 0 * p[:, :1]]), {'triangle': c}).write(os.path.join(d, 'u.vtu'))
    ns = apps.notebook(ctx, 'thermal_mechanical_control', over={'corner_node_id': corner, 'θ_ini': jnp.array(th)}, patch=dict(jax=spy(log)), files=files, skip=['grad_value['])
    (f, _, g), = log
    nodes = np.asarray(ns['hole_boundary_node_inds'])
    if sorted(nodes) != sorted(hole):
        raise CheckFail('nodes of the hole')
    E, nu, al = 70e3, .3, 2.31e-5
    mu, la = E / 2.6, E * nu / (1.3 * .4)
    ka = al * (2 * mu + 3 * la)
    S = [ref.Space('TRI3', p, c, 2, 1), ref.Space('TRI3', p, c, 1, 1)]
    R = ref.RefModel(S, lambda xp, us, gs, x, ivs: [(hooke(gs[0], E, nu) - ka * us[1][..., None] * np.eye(2), None), (237e-6 * gs[1], None)])
    off = R.off[1]
    top, right = where(p, 1, 1.), where(p, 0, 1.)
    bc = lambda v: [(2 * nodes, 0. * nodes), (2 * nodes + 1, 0. * nodes), (off + nodes, v), (off + top, 0. * top), (off + right, 0. * right)]
    u = R.newton(bc(th), tol=1e-8)
    got = np.concatenate([np.asarray(a).reshape(-1) for a in ns['fwd_pred'](jnp.array(th))])
    if not ref.close(got, u, 1e-6):
        raise CheckFail('solution %s' % ref.diff(got, u))
    w = u[2 * corner:2 * corner + 2] - np.array([.001, -.001])
    dJ = np.zeros(R.n)
    dJ[2 * corner:2 * corner + 2] = 2 * w
    want = np.linalg.solve(R.imposed_jacobian(u, bc(th)).T, dJ)[off + nodes]
    if not ref.close(np.asarray(g), want, 1e-3, 1e-16):  # the adjoint is solved by the default Krylov method
        raise CheckFail('gradient %s' % ref.diff(np.asarray(g), want))
    return 'max %.4g' % np.abs(want).max()


def shape(ctx, k):
    import jax
    import jax.numpy as jnp
    p, c = meshes.mesh('QUAD4', [[11, 10], [9, 11], [13, 10], [12, 11]][k])
    p, c = p / p.max(0) * [1., .5], np.asarray(c)
    th = [1., -.5, 2., .3, -1.5, .8, 0., 1.][:8]
    log = []
    ns = apps.notebook(ctx, 'shape_optimization', over={'θ_ini': jnp.array(th)}, patch=dict(rectangle_mesh=mesh_of(p, c, 'quad'), jax=spy(log)), skip=['grad_value['])
    (f, _, g), = [l for l in log if np.shape(l[2]) == (8,)]
    s = ref.Space('QUAD4', p, c, 2)
    fs = [(a, b) for a, b in ref.all_faces('QUAD4', c) if all(abs(p[i, 0] - 1) < 1e-5 and p[i, 1] <= .0501 for i in ref.face_vertices('QUAD4', c, a, b))]
    R = ref.RefModel([s], lambda xp, us, gs, x, ivs: [(plane_strain(gs[0], ivs[0]), None)], [(fs, lambda xp, us, gs, x, ivs: [0 * us[0] + np.array([0., 1e4])])])
    x = R.geo[0]['x']

    def density(b):
        """complex arithmetic in the angles"""
        b = np.asarray(b)
        beta = -np.pi / 4 + np.pi / 2 / (1 + np.exp(-b * .1))
        out = np.ones(x.shape[:2], b.dtype)
        L = .25
        for i, j in itertools.product(range(4), range(2)):
            m = (x[..., 0] >= i * L) & (x[..., 0] < (i + 1) * L) & (x[..., 1] >= j * L) & (x[..., 1] < (j + 1) * L)
            q = x[m] - [(i + .5) * L, (j + .5) * L]
            a, r, t = beta[2 * i + j], np.hypot(*q.T), np.arctan2(q[:, 1], q[:, 0])
            absc = lambda z: np.where(z.real < 0, -z, z)
            out[m] = 1 / (1 + np.exp(-(absc(r * np.cos(t - a)) + absc(r * np.sin(t - a)) - .9 * L / 2) * 200.))
        return out
    rho = density(np.array(th))
    bc = [(2 * where(p, 0, 0.) + i, 0. * where(p, 0, 0.)) for i in range(2)]
    u = R.newton(bc, [rho], tol=1e-6)
    f0 = R.residual(np.zeros(R.n), [rho])  # only the traction acts at rest
    J = -f0 @ u
    got = float(ns['J'](jnp.array(th)))
    if not abs(got - J) <= 1e-5 * abs(J):
        raise CheckFail('compliance %.9g, %.9g' % (got, J))
    lam = np.linalg.solve(R.imposed_jacobian(u, bc, [rho]).T, -f0)
    lam[np.array(list(R.bc_map(bc)), int)] = 0.
    want = np.zeros(8)
    for i in range(8):
        b = np.array(th, complex)
        b[i] += 1e-30j
        want[i] = -lam @ R.residual(u.astype(complex), [density(b)]).imag / 1e-30
    if not ref.close(np.asarray(g), want, 1e-4, 1e-9):
        raise CheckFail('gradient %s' % ref.diff(np.asarray(g), want))
    return 'max %.4g, compliance %.5g' % (np.abs(want).max(), J)


def plane_strain(g, rho):
    F = np.zeros(g.shape[:-2] + (3, 3), np.result_type(g.dtype, np.asarray(rho).dtype))
    F[..., :2, :2] = g
    F += np.eye(3)
    return neo(F, 1e3 + (1e6 - 1e3) * np.asarray(rho))[..., :2, :2]


# ---------------------------------------------------------------- optimisation loops
def topology(ctx, k, iters):
    p, c = meshes.mesh('QUAD4', [[6, 10], [8, 10]][k])
    p, c = p / p.max(0) * [60., 30.], np.asarray(c)
    log, saves = [], []
    ns = apps.notebook(ctx, 'topology_optimization', over={'optimizationParams': {'maxIters': iters, 'movelimit': .1}},
                       patch=dict(rectangle_mesh=mesh_of(p, c, 'quad'), jax=spy(log), save_sol=saver(saves), plt=lambda m: Mute()))
    Js = [l for l in log if np.size(l[2][0]) == 1 and np.asarray(l[1][0]).shape == (len(c), 1) and l[0].__name__ == 'J_total']
    if len(Js) != iters or len(saves) != iters or len(ns['outputs']) != iters:
        raise CheckFail('%d objectives, %d files' % (len(Js), len(saves)))
    s = ref.Space('QUAD4', p, c, 2)
    fs = [(a, b) for a, b in ref.all_faces('QUAD4', c) if all(abs(p[i, 0] - 60) < 1e-5 and p[i, 1] <= 3 + 2e-5 for i in ref.face_vertices('QUAD4', c, a, b))]
    assert fs

    def vol(xp, us, gs, x, ivs):
        E = (70. + (70e3 - 70.) * ivs[0] ** 3)[..., None, None]
        e = (gs[0] + np.swapaxes(gs[0], -1, -2)) / 2
        return [(E / (1 - .09) * ((1 - .3) * e + .3 * np.trace(e, axis1=-2, axis2=-1)[..., None, None] * np.eye(2)), None)]
    R = ref.RefModel([s], vol, [(fs, lambda xp, us, gs, x, ivs: [0 * us[0] + np.array([0., 100.])])])
    bc = [(2 * where(p, 0, 0.) + i, 0. * where(p, 0, 0.)) for i in range(2)]
    nq = len(s.qw)
    rhos = [np.asarray(l[1][0])[:, 0] for l in Js]
    for i, ((_, _, (J, dJ)), rho, (sv, cells, _), out) in enumerate(zip(Js, rhos, saves, ns['outputs'])):
        iv = np.repeat(rho[:, None], nq, 1)
        z = np.zeros(R.n)
        f0 = R.residual(z, [iv])
        K = R.imposed_jacobian(z, bc, [iv])
        b = -f0.copy()
        b[np.array(list(R.bc_map(bc)), int)] = 0.
        u = np.linalg.solve(K, b)
        if not abs(float(J) + f0 @ u) <= 1e-7 * abs(f0 @ u):
            raise CheckFail('compliance of iteration %d: %.9g, %.9g' % (i, float(J), -f0 @ u))
        want = adjoint(R, u, bc, -f0, [iv]).sum(1)
        if not ref.close(np.asarray(dJ)[:, 0], want, 1e-6):
            raise CheckFail('gradient of iteration %d: %s' % (i, ref.diff(np.asarray(dJ)[:, 0], want)))
        if not ref.close(sv[:, :2].reshape(-1), u, 1e-7) or np.abs(sv[:, 2]).max() or not ref.close(cells['theta'], rho, 1e-12) or float(out) != float(J):
            raise CheckFail('data saved in iteration %d' % i)
        if i and not (np.abs(rho - rhos[i - 1]).max() <= .1 + 1e-9 and np.abs(rho - rhos[i - 1]).max() > 1e-3 and rho.min() >= 0 and rho.max() <= 1):
            raise CheckFail('design %d' % i)
        ctx.add(states=1)
    if not all(abs(r.mean() - .5) < 2e-2 for r in rhos):
        raise CheckFail('volumes %s' % [r.mean() for r in rhos])
    return 'compliances %s' % [round(float(l[2][0]), 4) for l in Js]


def codesign(ctx, k, iters):
    import jax.numpy as jnp
    p, c = meshes.mesh('HEX8', [[3, 2, 1], [2, 4, 1]][k])
    p, c = p / p.max(0) * [50., 30., 1.], np.asarray(c)
    # a strip of cells that carries the loaded patch (y within 1.5 of 15)
    p[np.abs(p[:, 1] - 15.) < 1e-6, 1] = 14.
    p, c = strip(p, c, 16.)
    load = 1100.
    log, saves = [], []

    def files(d):
        os.makedirs(os.path.join(d, 'vtk'))
    ns = apps.notebook(ctx, 'structure_material_co_design', over={'optimizationParams': {'maxIters': iters, 'movelimit': .1}, 'max_load': load},
                       patch=dict(box_mesh_gmsh=mesh_of(p, c), jax=spy(log), save_sol=saver(saves)), files=files)
    tests = [l for l in log if l[0].__name__ == 'test_fun']
    (f, (x,), g), = tests
    want, err = derivative(f, float(x), 1e-3)
    if not abs(float(g) - want) <= 10 * err + 1e-4 * abs(want):
        raise CheckFail('gradient %.9g, differences give %.9g (+- %.2g)' % (float(g), want, err))
    Js = [l for l in log if l[0].__name__ == 'J_total']
    if len(Js) != iters:
        raise CheckFail('%d objectives' % len(Js))
    f, (th,), (J, dJ) = Js[-1]
    th, dJ = np.asarray(th), np.asarray(dJ)
    s = ref.Space('HEX8', p, c, 3)
    fs = [(a, b) for a, b in ref.all_faces('HEX8', c) if all(abs(p[i, 0] - 50) < 1e-5 and abs(p[i, 1] - 15) <= 1.5 + 1e-9 for i in ref.face_vertices('HEX8', c, a, b))]
    assert fs
    J2, ys = history(s, fs, p, th, load)
    if not abs(J2 - float(J)) <= 1e-4 * abs(J2):
        raise CheckFail('compliance %.9g, %.9g' % (float(J), J2))
    for i in range(th.shape[0]):
        for d in range(2):
            def line(t):
                z = th.copy()
                z[i, d] += t
                return history(s, fs, p, z, load)[0]
            w, err = derivative(line, 0., 1e-3)
            if not abs(dJ[i, d] - w) <= 10 * err + 1e-3 * np.abs(dJ[:, d]).max():
                raise CheckFail('gradient of cell %d, parameter %d: %.9g, differences give %.9g (+- %.2g)' % (i, d, dJ[i, d], w, err))
            ctx.add(states=1)
    return 'compliance %.5g, %d points yield' % (J2, ys)


def strip(p, c, y2):
    """replaces the node line y=14 by a strip of cells from 14 to y2"""
    lower = c[(p[c][:, :, 1].max(1) <= 14. + 1e-9)]
    upper = c[(p[c][:, :, 1].min(1) >= 14. - 1e-9)]
    line = np.where(np.abs(p[:, 1] - 14.) < 1e-9)[0]
    new = {int(i): len(p) + j for j, i in enumerate(line)}
    q = np.vstack([p, p[line] + [0., y2 - 14., 0.]])
    upper2 = np.array([[new.get(int(i), int(i)) for i in cell] for cell in upper])
    mid = []
    for cell in lower:
        tops = [i for i in cell if int(i) in new]
        if len(tops) == 4:
            m = list(cell)
            # lower nodes of the new cell are the upper nodes of this one
            partner = {}
            for i in cell:
                if int(i) not in new:
                    t = [j for j in tops if abs(p[j, 0] - p[i, 0]) < 1e-9 and abs(p[j, 2] - p[i, 2]) < 1e-9][0]
                    partner[int(i)] = int(t)
            mid.append([partner[int(i)] if int(i) in partner else new[int(i)] for i in m])
    return q, np.vstack([lower, np.array(mid), upper2])


def history(s, fs, p, th, load):
    """the five load steps of the notebook with an independent Newton iteration"""
    E = np.repeat((70. + (70e3 - 70.) * th[:, 0] ** 3)[:, None], len(s.qw), 1)
    sy = np.repeat((250. + 100 * th[:, 1])[:, None], len(s.qw), 1)
    geo = s.geometry()
    c = s.cells
    sig = eps = np.zeros((len(c), len(s.qw), 3, 3))
    force = ref.RefModel([s], lambda xp, us, gs, x, ivs: [(0 * gs[0], None)], [(fs, lambda xp, us, gs, x, ivs: [0 * us[0] + np.array([0., 1., 0.])])]).residual(np.zeros(s.ndof))
    fix = np.concatenate([3 * where(p, 0, 0.) + i for i in range(3)])
    free = np.setdiff1d(np.arange(s.ndof), fix)
    u = np.zeros(s.ndof)
    ys = 0
    for r in np.linspace(.2, 1., 5):
        def res(v):
            t, e, f = j2(np.einsum('cnv,cqnd->cqvd', v.reshape(-1, 3)[c], geo['G']), sig, eps, E, sy)
            out = np.zeros((len(p), 3))
            np.add.at(out, c, np.einsum('cqij,cqnj,cq->cni', t, geo['G'], geo['W']))
            return out.reshape(-1) + r * load * force, t, e, f
        for _ in range(60):
            a, t, e, f = res(u)
            if np.linalg.norm(a[free]) < 1e-9:
                break
            K = tangent(s, geo, u, sig, eps, E, sy)
            u[free] -= np.linalg.solve(K[np.ix_(free, free)], a[free])
        else:
            raise AssertionError('reference does not converge')
        a, sig, eps, f = res(u)
        ys += int((f > 0).sum())
    return -load * force @ u, ys


def tangent(s, geo, u, sig, eps, E, sy):
    """consistent tangent of the radial return"""
    g = np.einsum('cnv,cqnd->cqvd', u.reshape(-1, 3)[s.cells], geo['G'])
    _, _, f = j2(g, sig, eps, E, sy)
    mu, la = E / 2.6, E * .3 / (1.3 * .4)
    e = (g + np.swapaxes(g, -1, -2)) / 2
    d = e - eps
    tr = sig + la[..., None, None] * np.trace(d, axis1=-2, axis2=-1)[..., None, None] * np.eye(3) + 2 * mu[..., None, None] * d
    sd = tr - np.trace(tr, axis1=-2, axis2=-1)[..., None, None] * np.eye(3) / 3
    n = np.sqrt(1.5 * np.sum(sd * sd, axis=(-2, -1)))
    n = np.where(n == 0, 1., n)
    I = np.eye(3)
    sym = .5 * (np.einsum('ik,jl->ijkl', I, I) + np.einsum('il,jk->ijkl', I, I))
    vol = np.einsum('ij,kl->ijkl', I, I)
    b = np.where(f > 0, f / n, 0.)
    # sigma = tr - (1 - sy/n) s
    C = la[..., None, None, None, None] * vol + 2 * mu[..., None, None, None, None] * (sym - b[..., None, None, None, None] * (sym - vol / 3))
    k = np.where(f > 0, sy / n ** 3 * 1.5 * 2 * mu, 0.)
    C = C - k[..., None, None, None, None] * np.einsum('cqij,cqkl->cqijkl', sd, sd)
    Ke = np.einsum('cqijkl,cqnj,cqml,cq->cnimk', C, geo['G'], geo['G'], geo['W'])
    nd = Ke.shape[1] * 3
    dof = (3 * s.cells[:, :, None] + np.arange(3)).reshape(len(s.cells), -1)
    K = np.zeros((s.ndof, s.ndof))
    for a, k in zip(dof, Ke.reshape(len(Ke), nd, nd)):
        K[np.ix_(a, a)] += k
    return K
