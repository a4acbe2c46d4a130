"""C02: geometry on physical cells.  Space: element x orientation-preserving relabelings x maps x faces x overrides."""
import numpy as np
from mc import ref, meshes
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (element type, map, relabeling pair, quadrature order): all gradients, weights, points, face measures and '
        'interpolations compared with the isoparametric map; override cases: every sequence of two coordinate overrides')
BOUND = {'quick': 'two-cell meshes, every relabeling of the first cell paired with one of the second, 7 maps (4 to slender, tiny or huge cells), default and one higher order',
         'thorough': 'all relabeling pairs up to 12x12, orders 1..4'}
def thin(p, k):
    f = np.array([[1., 2e-6, 1.], [3e3, 1., 1e-4], [1e-7, 1e-7, 1e-7], [1e5, 1e5, 1e5]][k])
    return meshes.affine(p, 0) * f[:p.shape[1]]


MAPS = {'affine': lambda p: meshes.affine(p, 0), 'rotated': lambda p: meshes.affine(p, 1), 'curved': lambda p: meshes.curved(meshes.affine(p, 0)),
        'thin0': lambda p: thin(p, 0), 'thin1': lambda p: thin(p, 1), 'tiny': lambda p: thin(p, 2), 'huge': lambda p: thin(p, 3)}


def jobs(tier, seed):
    js = []
    for e in ref.TYPES:
        for m in MAPS:
            js.append(dict(kind='geo', ele=e, map=m, orders=[None, 3 if e != 'HEX27' else 4] if tier == 'quick' else [None, 1, 2, 3, 4], full=tier == 'thorough'))
        js.append(dict(kind='override', ele=e))
    return js


def _mesh2(ele):
    n = [2] + [1] * (ref.ELE[ele]['dim'] - 1)
    pts, cells = meshes.mesh(ele, n)
    return pts, cells


def same(a, b, m=None):
    """equal up to rounding relative to m (per axis), or to the largest entry"""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    m = np.abs(b).max() if m is None else m
    return bool(np.all(np.abs(a - b) <= 1e-8 * m + 1e-300))


def _check_fe(ele, fe, pts, cells, P=None, sol=None):
    """Compare a FiniteElement on (pts, cells), evaluated with replacement points P, with the isoparametric map."""
    E = ref.ELE[ele]
    nodes, dim = E['nodes'], E['dim']
    X = (pts if P is None else P)[cells]
    arg = () if P is None else (P,)
    N = np.asarray(fe.shape_vals)
    xi = N @ nodes
    D = ref.dshape(ele, xi)
    J = np.einsum('cni,qnj->cqij', X, D)
    G = np.einsum('qnj,cqji->cqni', D, np.linalg.inv(J))
    W = np.linalg.det(J) * np.asarray(fe.quad_weights)[None]
    g, w = fe.get_shape_grads(*arg)
    if np.min(W) <= 0 and np.all(np.asarray(fe.quad_weights) > 0):
        raise CheckFail('reference mesh invalid')
    gm, xm = np.abs(G).max((0, 1, 2)), np.abs(X).max((0, 1))
    for name, a, b, m in (('shape gradients', g, G, gm), ('integration weights', w, W, None),
                          ('quadrature point coordinates', fe.get_physical_quad_points(*arg), np.einsum('qn,cni->cqi', ref.shape(ele, xi), X), xm)):
        if not same(a, b, m):
            raise CheckFail('%s: %s' % (name, ref.diff(a, b)))
    nf = len(E['faces'])
    inds = np.array([[c, f] for f in range(nf) for c in range(len(cells))])[::-1].copy()
    key = [tuple(sorted(int(i) for i in v)) for v in np.asarray(fe.face_inds)]
    want = {tuple(sorted(f)): k for k, f in enumerate(E['faces'])}
    fg, fw = (np.asarray(a) for a in fe.get_face_shape_grads(inds, *arg))
    fx = np.asarray(fe.get_physical_surface_quad_points(inds, *arg))
    if sol is not None:
        fu = np.asarray(fe.convert_from_dof_to_face_quad(sol, inds))
    for i, (c, f) in enumerate(inds):
        xf = np.asarray(fe.face_shape_vals)[f] @ nodes
        d = ref.dshape(ele, xf)
        Jf = np.einsum('ni,qnj->qij', X[c], d)
        _, _, T = ref.face_points(ele, want[key[f]], 1)
        t = np.einsum('qij,jk->qik', Jf, T)
        if dim == 2:
            r = np.linalg.norm(t[:, :, 0], axis=-1) / np.linalg.norm(T[:, 0])
        else:
            r = np.linalg.norm(np.cross(t[:, :, 0], t[:, :, 1]), axis=-1) / np.linalg.norm(np.cross(T[:, 0], T[:, 1]))
        for name, a, b, m in (('face measure', fw[i], r * np.asarray(fe.face_quad_weights)[f], None),
                              ('face shape gradients', fg[i], np.einsum('qnj,qji->qni', d, np.linalg.inv(Jf)), gm),
                              ('face point coordinates', fx[i], ref.shape(ele, xf) @ X[c], xm)):
            if not same(a, b, m):
                raise CheckFail('%s of cell %d face %d: %s' % (name, c, f, ref.diff(a, b)))
        if sol is not None and not same(fu[i], ref.shape(ele, xf) @ sol[cells[c]]):
            raise CheckFail('face interpolation of cell %d face %d' % (c, f))
    if sol is not None:
        if not same(fe.convert_from_dof_to_quad(sol), np.einsum('qn,cnv->cqv', ref.shape(ele, xi), sol[cells])):
            raise CheckFail('interpolation to quadrature points')
        fe.shape_grads = g
        if not same(fe.sol_to_grad(sol), np.einsum('cnv,cqni->cqvi', sol[cells], G), gm):
            raise CheckFail('interpolated gradient')
    return float(np.sum(W))


def run(job, ctx):
    import jax.numpy as jnp
    from jax_fem.fe import FiniteElement
    from jax_fem.generate_mesh import Mesh
    ele = job['ele']
    dim = ref.ELE[ele]['dim']
    pts0, cells0 = _mesh2(ele)
    nr = len(ref.rotations(ele))
    if job['kind'] == 'geo':
        pts = MAPS[job['map']](pts0)
        sol = np.stack([np.sin(1. + np.arange(len(pts))), np.cos(2. * np.arange(len(pts)))], -1)
        pairs = [(a, b) for a in range(nr) for b in ([(5 * a + 1) % nr] if not job['full'] else range(min(nr, 12)))]
        for order in job['orders']:
            scaled = job['map'] in ('thin0', 'thin1', 'tiny', 'huge')
            for a, b in (pairs[::3] if scaled and not job['full'] else pairs if order is None else pairs[:max(2, nr // 4)]):
                def f():
                    cells = meshes.rotate_cells(ele, cells0, [a, b])
                    fe = FiniteElement(mesh=Mesh(pts, cells), vec=2, dim=dim, ele_type=ele, quadrature_rule=None,
                                       quadrature_order=order, dirichlet_bc_info=None)
                    v = _check_fe(ele, fe, pts, cells, None, jnp.asarray(sol))
                    return 'volume %.6f' % v
                ctx.case([ele, job['map'], order, a, b], f)
        return
    # ---- replacement coordinates: on the element object and on whole problems
    from jax_fem.problem import Problem

    class P(Problem):
        def get_tensor_map(self):
            return lambda g: g + 0.3 * jnp.sum(g) * jnp.ones_like(g) + 0.1 * g**3

        def get_mass_map(self):
            return lambda u, x: u * (1. + x[0]) - x[-1]

        def get_surface_maps(self):
            return [lambda u, x: u + x[0] * x[1], lambda u, x: u * u - x[1]]

    cells = meshes.rotate_cells(ele, cells0, [1 % nr, 2 % nr])
    P0 = pts0
    variants = {'same': None, 'affine': meshes.affine(P0, 0), 'curved': meshes.curved(P0), 'rot': meshes.affine(P0, 1)}
    locs = [lambda x: jnp.ones_like(x[0], dtype=bool), lambda x, ind: ind >= 1]
    attrs = ['JxW', 'shape_grads', 'v_grads_JxW', 'physical_quad_points', 'selected_face_shape_grads', 'nanson_scale',
             'selected_face_shape_vals', 'physical_surface_quad_points']

    def build(points):
        return P(Mesh(points, cells), vec=1, dim=dim, ele_type=ele, location_fns=list(locs))

    def quantities(p, u):
        out = [np.asarray(r) for r in p.compute_residual([u])]
        for a in attrs:
            v = getattr(p, a, None)
            out += [np.asarray(x) for x in v] if isinstance(v, list) else ([np.asarray(v)] if v is not None else [])
        return out
    u = jnp.asarray(np.sin(np.arange(len(P0)))[:, None])
    fresh = {}

    def get(k):
        if k not in fresh:
            fresh[k] = quantities(build(P0 if variants[k] is None else variants[k]), u)
        return fresh[k]
    prob = build(P0)
    for a in variants:
        for b in variants:
            def f():
                for k in (a, b):
                    prob.initialize_geometric_quantities(None if variants[k] is None else [jnp.asarray(variants[k])])
                    for x, y in zip(quantities(prob, u), get(k)):
                        if not ref.close(x, y, 1e-9, 1e-10):
                            raise CheckFail('override %s after %s: %s' % (k, a, ref.diff(x, y)))
                return 'equal to a fresh problem'
            ctx.case(['override', ele, a, b], f)
    for k in variants:
        if variants[k] is None:
            continue

        def f():
            fe = FiniteElement(mesh=Mesh(P0, cells), vec=1, dim=dim, ele_type=ele, quadrature_rule=None,
                               quadrature_order=None, dirichlet_bc_info=None)
            _check_fe(ele, fe, P0, cells, variants[k])
            _check_fe(ele, fe, P0, cells, None)
            return 'ok'
        ctx.case(['fe-override', ele, k], f)
