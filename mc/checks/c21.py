"""C21: renumbering, relabeling, re-ordering and rigid motions change results only by the same permutation or rotation."""
import itertools
import numpy as np
from mc import ref, meshes, models
from mc.checks.c05 import dense
from mc.checks.c08 import put_bc
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (problem, symmetry operation): residual and tangent at an irregular state and the solution of the boundary value problem, computed from the '
        'transformed input, against the transformed results of the original input; non-trivial: the operation is not the identity')
BOUND = {'quick': '7 layouts x (all node permutations of 4-node meshes, all adjacent transpositions + reversal + 2 irregular ones else; all orders of at most 4 cells; every relabeling of one cell, all pairs for two cells, '
                  'uniform relabelings else); 5 layouts x all 24 (4) axis rotations, 3 generic rotations, 3 translations; all orders of 3 surface sets and 4 Dirichlet conditions',
         'thorough': '11 layouts for numbering (every pair of node transpositions too), 8 for rotations'}
ASSUMPTIONS = ['frame-indifferent menus of weak forms', 'the operations are applied to meshes of at most 45 nodes']

# name: eles, vecs, kind of mesh, n
NUM = {'tri': (['TRI3'], [2], [1, 1]), 'quad': (['QUAD4'], [2], [2, 1]), 'tri2s': (['TRI3'], [1], [2, 1]), 'tet': (['TET4'], [3], [1, 1, 1]), 'hex': (['HEX8'], [1], [2, 1, 1]),
       'quad8': (['QUAD8'], [2], [2, 1]), 'mixed': (['QUAD8', 'QUAD4'], [2, 1], [2, 1]),
       'tri6': (['TRI6'], [2], [1, 1]), 'tet10': (['TET10'], [1], [1, 1, 1]), 'hex20': (['HEX20'], [1], [2, 1, 1]), 'mixtri': (['TRI6', 'TRI3'], [2, 1], [1, 1])}
NUMQ = ['tri', 'quad', 'tri2s', 'tet', 'hex', 'quad8', 'mixed']
FRM = {'quad': (['QUAD4'], [2], [2, 1]), 'tri_s': (['TRI6'], [1], [1, 1]), 'mixed': (['QUAD8', 'QUAD4'], [2, 1], [2, 1]), 'hex': (['HEX8'], [3], [2, 1, 1]), 'mix3': (['TET10', 'TET4'], [3, 1], [1, 1, 1]),
       'tet_s': (['TET4'], [1], [1, 1, 1]), 'tri3': (['TRI3'], [2], [2, 1]), 'hex20': (['HEX20'], [3], [1, 1, 1])}
FRMQ = ['quad', 'tri_s', 'mixed', 'hex', 'mix3']


# ---------------------------------------------------------------- objective weak forms (ivs = [scalar amplitude, vector b])
def t_iso(xp, g, ivs):
    v, d = g.shape[-2:]
    a = ivs[0][..., None, None]
    if v == 1:
        return a * (1. + xp.sum(g * g, axis=(-2, -1))[..., None, None]) * g
    gt = xp.swapaxes(g, -1, -2)
    tr = xp.trace(g, axis1=-2, axis2=-1)[..., None, None]
    return a * ((1. + .2 * xp.sum(g * g, axis=(-2, -1))[..., None, None]) * g + .3 * gt + .2 * tr * np.eye(d) + .1 * g @ g)


def m_iso(xp, u, x, ivs):
    if u.shape[-1] == 1:
        return ivs[0][..., None] * (1. + u * u) * u - xp.sum(ivs[1] ** 2, axis=-1)[..., None]
    return ivs[0][..., None] * (1. + xp.sum(u * u, axis=-1)[..., None]) * u - ivs[1]


def s_iso(xp, u, x, ivs):
    return m_iso(xp, .5 * u, x, ivs)


def u_iso(xp, us, gs, x, ivs):
    (u, p), (g, h) = us, gs
    d = g.shape[-1]
    f = t_iso(xp, g, ivs) + .4 * p[..., None] * np.eye(d) + .1 * u[..., :, None] * h
    s = m_iso(xp, u, x, ivs) + .3 * h[..., 0, :]
    f2 = (1. + p[..., None] ** 2) * h + .2 * u[..., None, :]
    s2 = p + .3 * xp.trace(g, axis1=-2, axis2=-1)[..., None] + .2 * xp.sum(u * ivs[1], axis=-1)[..., None] - .1
    return [(f, s), (f2, s2)]


def q_iso(xp, us, gs, x, ivs):
    u, p = us
    return [.4 * u + (gs[0] @ u[..., None])[..., 0] * .2 + ivs[1] + .1 * p * u, .3 * p + .1 * xp.sum(gs[1][..., 0, :] * u, axis=-1)[..., None]]


models.FN['iso'], models.MN['iso'], models.SN['iso'], models.UN['iso'], models.QN['iso'] = t_iso, m_iso, s_iso, u_iso, q_iso


def jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for name in (NUMQ if q else NUM):
        for part in ('nodes', 'cells', 'relabel'):
            js.append(dict(kind='number', lay=name, part=part, deep=not q))
    for name in (FRMQ if q else FRM):
        d = ref.ELE[FRM[name][0][0]]['dim']
        for part in (range(1) if d == 2 else range(3)):
            js.append(dict(kind='frame', lay=name, part=part, parts=1 if d == 2 else 3))
    js += [dict(kind='listing', lay=n) for n in ['quad', 'hex', 'mixed'] + ([] if q else ['tet', 'tri', 'mixtri'])]
    js.sort(key=lambda j: -len(NUM.get(j['lay'], FRM.get(j['lay']))[0]) - (2 if j['lay'] in ('mix3', 'hex') else 0))
    return js


def meshes_of(spec):
    eles, vecs, n = spec
    return [(meshes.affine(p, 0), c) for p, c in (meshes.mesh(e, n) for e in eles)]


def run(job, ctx):
    {'number': number, 'frame': frame, 'listing': listing}[job['kind']](job, ctx)


def evaluate(p, u, bcdone):
    """residual, tangent and solution of a prepared problem (Dirichlet data only for the last two)."""
    import jax.numpy as jnp
    from jax_fem.solver import solver, get_A
    R = models.flat(p.newton_update([jnp.asarray(s) for s in models.split_list(p, u)]))
    A = dense(get_A(p))
    sol = models.flat(solver(p, {'spsolve_solver': {}, 'tol': 1e-10, 'rel_tol': 1e-14}))
    return R, A, sol


def compare(got, want, what):
    for name, g, w, tol in zip(('residual', 'tangent', 'solution'), got, want, (1e-10, 1e-10, 1e-7)):
        if not ref.close(g, w, tol, tol):
            raise CheckFail('%s after %s: %s' % (name, what, ref.diff(g, w)))
    return 'solution norm %.4g' % np.linalg.norm(want[2])


# ---------------------------------------------------------------- numbering
def num_form(eles, vecs):
    one = len(eles) == 1
    return dict(eles=eles, vecs=vecs, T='nl' if one else None, M='nl' if one else None, U=None if one else 'nl',
                surf=[['x+', 'nl', None], ['y-', 'load', None]] if one else [['x+', None, 'nl'], ['y-', None, 'lin']], iv=2)


def node_perms(n, deep):
    if n <= 4:
        return [list(p) for p in itertools.permutations(range(n))]
    out = []
    for i in range(n - 1):
        p = list(range(n))
        p[i], p[i + 1] = p[i + 1], p[i]
        out.append(p)
    out.append(list(range(n))[::-1])
    for k in (1, 2):
        out.append([int(a) for a in np.argsort(np.sin(1. + 3.7 * k * np.arange(n)))])
    out.append(list(range(1, n)) + [0])
    if deep:
        for i, j in itertools.combinations(range(n), 2):
            if j > i + 1:
                p = list(range(n))
                p[i], p[j] = p[j], p[i]
                out.append(p)
    return out


def ops(spec, mm, part, deep):
    """(label, node permutation per variable, cell order, relabeling index per cell)."""
    nc = len(mm[0][1])
    ident = [list(range(len(p))) for p, _ in mm]
    zero = [0] * nc
    if part == 'nodes':
        for v in range(len(mm)):
            for q in node_perms(len(mm[v][0]), deep):
                ps = [list(i) for i in ident]
                ps[v] = q
                yield ['nodes', v, q if len(q) < 10 else [k for k in range(len(q)) if q[k] != k][:4] + [q[0], q[-1]]], ps, list(range(nc)), zero
    elif part == 'cells':
        orders = itertools.permutations(range(nc)) if nc <= 4 else [list(range(nc))[::-1], list(range(1, nc)) + [0]] + \
            [[*range(i), i + 1, i, *range(i + 2, nc)] for i in range(nc - 1)] + [[int(a) for a in np.argsort(np.sin(1. + 2.9 * np.arange(nc)))]]
        for o in orders:
            yield ['cells', list(o)], ident, list(o), zero
            if list(o) != list(range(nc)):
                yield ['cells+nodes', list(o)], [list(i)[::-1] for i in ident], list(o), zero
    else:
        nr = len(ref.rotations(spec[0][0]))
        if nc == 2 and nr <= 4:
            combos = list(itertools.product(range(nr), repeat=2))
        else:
            combos = [[k] * nc for k in range(nr)] + [[k] + [0] * (nc - 1) for k in range(1, nr)] + [[(k + 5 * i) % nr for i in range(nc)] for k in range(1, nr)]
        for c in combos:
            yield ['relabel', list(c)], ident, list(range(nc)), list(c)


def number(job, ctx):
    spec = NUM[job['lay']]
    eles, vecs, _ = spec
    mm = meshes_of(spec)
    form = num_form(eles, vecs)
    cls = models.make_problem_class()
    pts0 = mm[0][0]
    conds = [[0, 'x-', 0, 'x'], [len(eles) - 1, 'y+', vecs[-1] - 1, 'const']] if pts0 is not None else []
    # the affine map tilts the box: select by the position before the map instead
    A = np.array([[1.3, .2, -.1], [-.3, .9, .25], [.15, -.2, 1.1]])[:pts0.shape[1], :pts0.shape[1]]
    Ai, t = np.linalg.inv(A), np.array([.3, -.7, .2])[:pts0.shape[1]]

    def sel(name):
        import jax.numpy as jnp
        d, e = 'xyz'.index(name[0]), (1. if name[1] == '+' else 0.)
        return lambda x: jnp.isclose((jnp.asarray(Ai) @ (x - t))[d], e, rtol=0., atol=1e-6)

    def problem(mm2):
        per = [[[], [], []] for _ in eles]
        for v, name, c, val in conds:
            per[v][0].append(sel(name))
            per[v][1].append(c)
            per[v][2].append(models.VALS[val])
        infos = [q if q[0] else None for q in per]
        return models.build(cls, form, mm2, bc=infos[0] if len(eles) == 1 else infos, location_fns=[sel(s[0]) for s in form['surf']])

    off = np.concatenate([[0], np.cumsum([len(p) * v for (p, _), v in zip(mm, vecs)])]).astype(int)
    u = models.state(int(off[-1]), 2)
    base = ctx.case(['base', job], lambda: keep(evaluate(problem(mm), u, True)), nontrivial=False)
    if base is None:
        return
    base = KEEP.pop()

    def one(perms, order, rel):
        mm2, idx = [], np.zeros(int(off[-1]), int)
        for v, ((p, c), q) in enumerate(zip(mm, perms)):
            q = np.array(q)                    # new node k is old node q[k]
            inv = np.argsort(q)
            R = ref.rotations(eles[v])
            cells = np.array([[inv[c[k][i]] for i in R[rel[k]]] for k in range(len(c))])[list(order)]
            mm2.append((p[q], cells))
            idx[off[v]:off[v + 1]] = (off[v] + q[:, None] * vecs[v] + np.arange(vecs[v])).reshape(-1)
        got = evaluate(problem(mm2), u[idx], True)
        return compare(got, (base[0][idx], base[1][np.ix_(idx, idx)], base[2][idx]), 'renumbering')
    for label, perms, order, rel in ops(spec, mm, job['part'], job['deep']):
        ctx.case([label, job['lay']], lambda: one(perms, order, rel))


KEEP = []


def keep(x):
    KEEP.append(x)
    return 'computed'


# ---------------------------------------------------------------- frame
def rot_axis(axis, a):
    axis = np.asarray(axis, float) / np.linalg.norm(axis)
    K = np.array([[0, -axis[2], axis[1]], [axis[2], 0, -axis[0]], [-axis[1], axis[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def motions(dim):
    out = []
    for perm in itertools.permutations(range(dim)):
        for s in itertools.product([1., -1.], repeat=dim):
            Q = np.zeros((dim, dim))
            for i in range(dim):
                Q[i, perm[i]] = s[i]
            if np.linalg.det(Q) > 0:
                out.append((['axes', perm, s], Q, np.zeros(dim)))
    gen = [rot_axis([0, 0, 1], a)[:dim, :dim] for a in (.3, 1.9, 4.)] if dim == 2 else [rot_axis([1, 2, -1], .7), rot_axis([0, 1, 3], 2.1), rot_axis([-1, 1, 1], 3.6)]
    ts = [np.array([1., 0, 0])[:dim], np.array([0., -2., 1.])[:dim], np.array([100., 40., -70.])[:dim]]
    for k, Q in enumerate(gen):
        out.append((['generic', k], Q, np.zeros(dim)))
        out.append((['generic+translation', k], Q, ts[k]))
    for k, t in enumerate(ts):
        out.append((['translation', k], np.eye(dim), t))
    return out


def frame(job, ctx):
    import jax.numpy as jnp
    spec = FRM[job['lay']]
    eles, vecs, _ = spec
    mm = meshes_of(spec)
    dim = mm[0][0].shape[1]
    one_var = len(eles) == 1
    form = dict(eles=eles, vecs=vecs, T='iso' if one_var else None, M='iso' if one_var else None, U=None if one_var else 'iso',
                surf=[['x+', 'iso', None], ['all', 'iso', None]] if one_var else [['x+', None, 'iso'], ['all', None, 'iso']], iv=0)
    cls = models.make_problem_class()
    pts0 = mm[0][0]
    A = np.array([[1.3, .2, -.1], [-.3, .9, .25], [.15, -.2, 1.1]])[:dim, :dim]
    Ai, t0 = np.linalg.inv(A), np.array([.3, -.7, .2])[:dim]
    off = np.concatenate([[0], np.cumsum([len(p) * v for (p, _), v in zip(mm, vecs)])]).astype(int)
    u = models.state(int(off[-1]), 1)
    # clamp the face x-=0 of variable 0 with a non-trivial field; one node of the last variable
    left = np.where(np.abs((Ai @ (mm[0][0] - t0).T)[0]) < 1e-9)[0]
    data = .2 * np.sin(1. + 1.3 * np.arange(len(left) * vecs[0])).reshape(len(left), vecs[0])

    def field(x, k):
        return [1. + .3 * np.sin(2. * x[..., 0] + k), np.stack([.4 * np.cos(x[..., 1] + k), .2 * x[..., 0] - .1, .3 + 0. * x[..., 0]][:dim], axis=-1)]

    def setup(Q, t):
        mq = [(p @ Q.T + t, c) for p, c in mm]

        def loc(name):
            if name == 'all':
                return lambda x: True
            return lambda x: jnp.isclose((jnp.asarray(Ai @ Q.T) @ (x - t) - Ai @ t0)[0], 1., rtol=0., atol=1e-6)
        p = models.build(cls, form, mq, location_fns=[loc(s[0]) for s in form['surf']])
        x = (np.asarray(p.physical_quad_points) - t) @ Q
        a, b = field(x, 0.)
        p.internal_vars = [jnp.asarray(a), jnp.asarray(b @ Q.T)]
        p.internal_vars_surfaces = []
        for k, xs in enumerate(p.physical_surface_quad_points):
            a, b = field((np.asarray(xs) - t) @ Q, 1. + k)
            p.internal_vars_surfaces.append([jnp.asarray(a), jnp.asarray(b @ Q.T)])
        bc = []
        for v in range(len(eles)):
            n, c, w = [], [], []
            if v == 0:
                d = data @ Q.T if vecs[0] == dim else data
                for comp in range(vecs[0]):
                    n.append(left)
                    c.append(np.full(len(left), comp))
                    w.append(d[:, comp])
            else:
                n, c, w = [np.array([0])], [np.array([0])], [np.array([.15])]
            bc.append((n, c, w))
        put_bc(p, (bc,))
        return p

    def big(Q):
        B = np.zeros((int(off[-1]),) * 2)
        for v, ((p, _), w) in enumerate(zip(mm, vecs)):
            blk = np.kron(np.eye(len(p)), Q) if w == dim else np.eye(len(p) * w)
            B[off[v]:off[v + 1], off[v]:off[v + 1]] = blk
        return B
    if ctx.case(['base', job], lambda: keep(evaluate(setup(np.eye(dim), np.zeros(dim)), u, True)), nontrivial=False) is None:
        return
    base = KEEP.pop()

    def one(Q, t):
        B = big(Q)
        got = evaluate(setup(Q, t), B @ u, True)
        # the imposed rows of the tangent are identities on a rotation-invariant set of dofs: the rotated tangent is B K B^T
        return compare(got, (B @ base[0], B @ base[1] @ B.T, B @ base[2]), 'a rigid motion')
    for k, (label, Q, t) in enumerate(motions(dim)):
        if k % job['parts'] == job['part']:
            ctx.case([label, job['lay']], lambda: one(Q, t), nontrivial=not (np.allclose(Q, np.eye(dim)) and not t.any()))


# ---------------------------------------------------------------- listing order
def listing(job, ctx):
    spec = NUM[job['lay']]
    eles, vecs, _ = spec
    mm = [(p, c) for p, c in (meshes.mesh(e, spec[2]) for e in eles)]
    cls = models.make_problem_class()
    one_var = len(eles) == 1
    surf = [['x+', 'nl', None], ['y-', 'load', None], ['all', 'lin', None]] if one_var else [['x+', None, 'nl'], ['y-', None, 'lin'], ['all', None, 'lin']]
    last = len(eles) - 1
    # pairwise non-overlapping conditions (different components or opposite faces)
    conds = [[0, 'x-', 0, 'x'], [0, 'x+', 0, 'const'], [last, 'y-', vecs[last] - 1, 'const'], [last, 'y+', vecs[last] - 1, 'xx']] if (last or vecs[0] > 1) else \
        [[0, 'x-', 0, 'x'], [0, 'x+', 0, 'const']]
    ndof = sum(len(p) * v for (p, _), v in zip(mm, vecs))
    u = models.state(ndof, 2)

    def problem(sp, cp):
        form = dict(eles=eles, vecs=vecs, T='nl' if one_var else None, M='nl' if one_var else None, U=None if one_var else 'nl', surf=[surf[i] for i in sp], iv=0)
        return models.build(cls, form, mm, bc=models.bc_info([conds[i] for i in cp], len(eles), mm[0][0]))
    ns, nc = len(surf), len(conds)
    if ctx.case(['base', job], lambda: keep(evaluate(problem(range(ns), range(nc)), u, True)), nontrivial=False) is None:
        return
    base = KEEP.pop()
    for sp in itertools.permutations(range(ns)):
        ctx.case(['surfaces', sp], lambda: compare(evaluate(problem(sp, range(nc)), u, True), base, 'listing surfaces as %s' % (sp,)), nontrivial=sp != tuple(range(ns)))
    for cp in itertools.permutations(range(nc)):
        sp = tuple(range(ns)) if sum(cp[:2]) % 2 else tuple(range(ns))[::-1]
        ctx.case(['conditions', cp, sp], lambda: compare(evaluate(problem(sp, cp), u, True), base, 'listing conditions as %s' % (cp,)), nontrivial=cp != tuple(range(nc)))
