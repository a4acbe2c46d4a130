"""C06: imposition of Dirichlet conditions.  Space: all lists of up to three conditions over subsets of nodes of small problems."""
import itertools
import numpy as np
from mc import ref, meshes, models
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (problem, list of conditions, scale): six helper functions compared with a dictionary model; '
        'non-trivial: at least one constrained degree of freedom')
BOUND = {'quick': 'all single conditions over all node subsets, all pairs over a 10-subset menu, all triples over a 4-subset menu, 1 and 2 variables; conditions given as functions: all single ones and pairs over 4 node sets x components',
         'thorough': 'all pairs over a 24-subset menu, triples over a 6-subset menu, lists of four over a 3-subset menu'}
LAY = {'scalar': (['QUAD4'], [1]), 'vector': (['QUAD4'], [2]), 'coupled': (['QUAD8', 'QUAD4'], [2, 1]), 'coupled2': (['TRI3', 'TRI6'], [1, 3])}
SCALES = [1., 0., .3, -2.]


def jobs(tier, seed):
    js = []
    for lay in LAY:
        js.append(dict(kind='single', lay=lay))
        js.append(dict(kind='route', lay=lay))
        if tier == 'quick':
            js += [dict(kind='pair', lay=lay, m=10, part=p, of=2) for p in range(2)]
            js += [dict(kind='triple', lay=lay, m=4, part=p, of=2) for p in range(2)]
        else:
            js += [dict(kind='pair', lay=lay, m=24, part=p, of=8) for p in range(8)]
            js += [dict(kind='triple', lay=lay, m=6, part=p, of=8) for p in range(8)]
            js += [dict(kind='four', lay=lay, m=3, part=p, of=8) for p in range(8)]
    return js


def _subsets(n):
    """Menu of node subsets, overlapping in every way; first entries first."""
    a = [list(range(0, n, 2)), [0], list(range(n // 2, n)), [n - 1, 0], list(range(n)), [], list(range(n // 2)), list(range(n - 1, -1, -1)), [1], [2, 1, 0],
         list(range(1, n, 2)), [n - 2, 1], [0, n // 2], [3], [3, 2], list(range(0, n, 3))]
    a += [[i, (i + 2) % n] for i in range(n)]
    return a


RVALS = [lambda x: 1. / 3. + x[0] / 7., lambda x: 1e-9 * (1. + x[1]), lambda x: 1e6 + x[0] * x[1] / 3., lambda x: 0.]


def route(job, ctx):
    """Conditions given as functions, through the constructor and through an update, up to the imposed residual."""
    import jax.numpy as jnp
    from jax_fem import solver as S
    eles, vecs = LAY[job['lay']]
    mm = [meshes.mesh(e, [2, 1]) for e in eles]
    mm = [(meshes.affine(p, 0), c) for p, c in mm]
    form = dict(eles=eles, vecs=vecs, T=None, M=None, U='nl', surf=[], iv=0)
    cls = models.make_problem_class()
    shared = models.build(cls, form, mm)
    menu = [(v, nm, c) for v in range(len(eles)) for nm in ('x-', 'y+', 'all', 'none') for c in range(vecs[v])]
    k = 0
    for cl in [[a] for a in menu] + [list(x) for x in itertools.product(menu, repeat=2)]:
        k += 1
        conds = [(v, nm, c, RVALS[(i + k) % 4]) for i, (v, nm, c) in enumerate(cl)]
        if len(cl) == 2 and k % (1 if len(menu) < 9 else 3):
            continue

        def f():
            per = [[[], [], []] for _ in eles]
            for v, nm, c, fn in conds:
                per[v][0].append(models.face_fn(nm, mm[0][0]))
                per[v][1].append(c)
                per[v][2].append(fn)
            if len(cl) == 1:
                q = models.build(cls, form, mm, per[0] if len(eles) == 1 else per)
            else:
                q = shared
                for fe, x in zip(q.fes, per):
                    fe.update_Dirichlet_boundary_conditions(x if k % 2 or x[0] else None)
            off, model = 0, {}
            for v, (P, _) in enumerate(mm):
                for w, nm, c, fn in conds:
                    if w == v:
                        for nd in np.where(models._mask_on(nm, mm[0][0], P))[0]:
                            model[off + nd * vecs[v] + c] = float(fn(P[nd]))
                off += len(P) * vecs[v]
            D = np.array(sorted(model), int)
            V = np.array([model[d] for d in D])
            for base in (0., 1e6):
                u, res = models.state(off, 1) + base, models.state(off, 2) - 3.
                want, asg = res.copy(), u.copy()
                want[D], asg[D] = u[D] - V, V
                for name, got, w in (('imposed residual', S.apply_bc_vec(jnp.asarray(res), jnp.asarray(u), q), want), ('assign', S.assign_bc(jnp.asarray(u), q), asg)):
                    if not np.all(np.abs(np.asarray(got) - w) <= 1e-15 * (np.abs(w) + np.abs(u) + np.abs(asg)) * 4.):
                        raise CheckFail('%s with conditions %s: %s' % (name, cl, ref.diff(got, w)))
            return len(D)
        ctx.case([job['lay'], 'route', cl, k % 4], f, nontrivial=any(c[1] != 'none' for c in cl))


def run(job, ctx):
    if job['kind'] == 'route':
        return route(job, ctx)
    import jax.numpy as jnp
    from jax_fem import solver as S
    eles, vecs = LAY[job['lay']]
    mm = [meshes.mesh(e, [2, 1]) for e in eles]
    form = dict(eles=eles, vecs=vecs, T=None, M=None, U='nl', surf=[], iv=0)
    p = models.build(models.make_problem_class(), form, mm)
    off = [0]
    for fe in p.fes:
        off.append(off[-1] + fe.num_total_nodes * fe.vec)
    n = off[-1]
    conds = []  # (var, nodes, comp)
    k = job['kind']
    if k == 'single':
        for var in range(len(eles)):
            N = len(mm[var][0])
            subs = [[i for i in range(N) if s >> i & 1] for s in range(2 ** N)] if N <= 6 else _subsets(N)
            conds += [[(var, s, c)] for s in subs for c in range(vecs[var])]
    else:
        menu = []
        for var in range(len(eles)):
            subs = _subsets(len(mm[var][0]))[:max(2, job['m'] // len(eles))]
            menu += [(var, s, c) for s in subs for c in range(vecs[var])]
        r = {'pair': 2, 'triple': 3, 'four': 4}[k]
        conds = [list(c) for c in itertools.product(menu, repeat=r)][job['part']::job['of']]
    u, res = models.state(n, 1) + 2., models.state(n, 2) - 3.
    ju, jres = jnp.asarray(u), jnp.asarray(res)
    for idx, cl in enumerate(conds):
        def f():
            for v, fe in enumerate(p.fes):
                mine = [(i, c) for i, c in enumerate(cl) if c[0] == v]
                arr = np.asarray if idx % 2 else jnp.asarray
                fe.node_inds_list = [arr(np.array(c[1], np.int32)) for _, c in mine]
                fe.vec_inds_list = [arr(np.full(len(c[1]), c[2], np.int32)) for _, c in mine]
                fe.vals_list = [arr(np.array([.1 * (i + 1) + .7 * nd + .01 * i * nd for nd in c[1]], float)) for i, c in mine]
            model = {}
            for v in range(len(p.fes)):
                for i, c in enumerate(cl):
                    if c[0] == v:
                        for nd in c[1]:
                            model[off[v] + nd * vecs[v] + c[2]] = .1 * (i + 1) + .7 * nd + .01 * i * nd
            D = np.array(sorted(model), int)
            V = np.array([model[d] for d in D])

            def put(base, vals):
                w = np.array(base, float)
                w[D] = vals
                return w
            scale = SCALES[idx % len(SCALES)]
            tests = [('imposed residual', S.apply_bc_vec(jres, ju, p), put(res, u[D] - V)),
                     ('imposed residual with scale %g' % scale, S.apply_bc_vec(jres, ju, p, scale), put(res, u[D] - scale * V)),
                     ('assign', S.assign_bc(ju, p), put(u, V)), ('assign zeros', S.assign_zeros_bc(ju, p), put(u, 0.)),
                     ('assign ones', S.assign_ones_bc(ju, p), put(u, 1.)), ('copy', S.copy_bc(ju, p), put(np.zeros(n), u[D])),
                     ('wrapped residual', S.apply_bc(lambda d: jres + d, p, scale)(ju), put(res + u, u[D] - scale * V))]
            for name, got, want in tests:
                if not ref.close(got, want, 1e-13, 1e-13):
                    raise CheckFail('%s with conditions %s: %s' % (name, cl, ref.diff(got, want)))
            if not np.array_equal(np.asarray(ju), u) or not np.array_equal(np.asarray(jres), res):
                raise CheckFail('input changed')
            ctx.outcome('%d constrained' % min(len(D), 6))
            return len(D)
        ctx.case([job['lay'], k, cl], f, nontrivial=any(c[1] for c in cl))
