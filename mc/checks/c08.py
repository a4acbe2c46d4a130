"""C08: returned Newton solutions are discrete equilibria, whatever the guess, options and solve history."""
import itertools
import numpy as np
from mc import ref, meshes, models
from mc.core import CheckFail

LEVEL = 'model_checking'
RULE = ('one case per (problem, guess, backend, tolerances, line search) and per history of solves: Dirichlet values and stopping rule '
        'evaluated on the reference residual; histories compared with the result of a fresh problem; non-trivial: the initial residual is above the tolerance')
BOUND = {'quick': '3 layouts x 6 guesses x 2 backends x 4 tolerance pairs x 2 line-search settings (JAX backend: 2 layouts x 2 guesses x 2 tolerance pairs); all histories of length 3 (coupled layout: 2) over 6 operations; 24 divergent problems; damped increments: factor 0.5 x 2 guesses x 4 tolerance pairs, 0.2 x 2 tolerance pairs, 2 layouts, 0.08 once',
         'thorough': '6 layouts, full grid for every backend, all solve histories of length 4 over 6 operations'}
ASSUMPTIONS = ['problems of the menu converge under plain Newton from every listed guess']

LAY = {'vector': (['QUAD4'], [2]), 'scalar3': (['HEX8'], [1]), 'coupled': (['QUAD8', 'QUAD4'], [2, 1]),
       'tri6': (['TRI6'], [2]), 'tet': (['TET4'], [3]), 'three': (['TRI3', 'TRI3', 'TRI3'], [1, 2, 1])}
GUESS = ['absent', 'zero', 'bc', 'irregular', 'jax', 'exact']
BACK = ['spsolve', 'petsc', 'jax']
TOLS = [{}, {'tol': 1e-9, 'rel_tol': 1e-14}, {'tol': 1e-30, 'rel_tol': 1e-6}, {'tol': 1e-2}]


def jobs(tier, seed):
    js = []
    lays = ['vector', 'scalar3', 'coupled'] if tier == 'quick' else list(LAY)
    for lay in lays:
        for b in BACK:
            for ls in (False, True):
                if b == 'jax' and tier == 'quick':  # every linear solve of this backend recompiles
                    if lay != 'scalar3':
                        js += [dict(kind='grid', lay=lay, back=b, ls=ls, guess=[g], tols=[0, 1]) for g in ('absent', 'irregular')]
                else:
                    js.append(dict(kind='grid', lay=lay, back=b, ls=ls, guess=GUESS))
    d = 3 if tier == 'quick' else 4
    for lay in (['vector', 'coupled'] if tier == 'quick' else ['vector', 'coupled', 'tet']):
        for a in range(6):
            if tier == 'quick':
                js.append(dict(kind='history', lay=lay, pre=[a], depth=3 if lay == 'vector' else 2))
            else:
                js += [dict(kind='history', lay=lay, pre=[a, b], depth=d) for b in range(6)]
    js.append(dict(kind='divergent'))
    for lay in (['vector', 'coupled'] if tier == 'quick' else list(LAY)):
        for th in ((.5, .2, .08) if tier == 'quick' else (.8, .5, .3, .2, .1, .05, .02)):
            small = tier == 'quick' and th < .5
            if not (small and th < .1 and lay != 'vector'):
                js += [dict(kind='damped', lay=lay, theta=th, sets=[x], guess=['irregular'] if small else ['zero', 'irregular'], tols=([0] if th < .1 else [0, 1]) if small else [0, 1, 2, 3])
                       for x in ((0,) if small and th < .1 else (0, 1))]
    js.sort(key=lambda j: 0 if j.get('back') == 'jax' else 1)
    return js


def make(lay, cls):
    eles, vecs = LAY[lay]
    dim = ref.ELE[eles[0]]['dim']
    mm = [meshes.mesh(e, [2, 1] if dim == 2 else [1, 1, 1]) for e in eles]
    mm = [(meshes.affine(p, 0), c) for p, c in mm]
    # conditions are listed on the unit box before the affine map: use node masks of the mapped boxes through coordinates
    one = len(eles) == 1
    form = dict(eles=eles, vecs=vecs, T='nl' if one else None, M='nl' if one else None, U=None if one else 'nl',
                surf=[['all', 'load', None]] if one else [['all', None, 'lin']], iv=1)
    r = models.reference(form, mm)
    last = len(eles) - 1
    sets = [node_bc(mm, vecs, [(0, 0, 0, .3), (0, 1, vecs[0] - 1, -.1)]), node_bc(mm, vecs, [(0, 2, 0, .2), (last, 0, vecs[last] - 1, .1), (0, 0, 0, .05)])]
    return form, mm, r, sets


def node_bc(mm, vecs, spec):
    """Dirichlet data by node numbers: per variable node, component, value lists, plus dof/value pairs."""
    off = np.concatenate([[0], np.cumsum([len(m[0]) * v for m, v in zip(mm, vecs)])]).astype(int)
    out, flatbc = [], []
    for var in range(len(mm)):
        n, c, v = [], [], []
        for sv, which, comp, val in spec:
            if sv != var:
                continue
            N = len(mm[var][0])
            nodes = np.array({0: [0, 1], 1: [N - 1], 2: [N - 1, 0, 2]}[which])
            vals = val + .1 * mm[var][0][nodes][:, 0]
            n.append(nodes)
            c.append(np.full(len(nodes), comp))
            v.append(vals)
            flatbc.append((off[var] + nodes * vecs[var] + comp, vals))
        out.append((n, c, v))
    return out, flatbc


def put_bc(p, bc):
    import jax.numpy as jnp
    for fe, (n, c, v) in zip(p.fes, bc[0]):
        fe.node_inds_list = [jnp.asarray(a) for a in n]
        fe.vec_inds_list = [jnp.asarray(a) for a in c]
        fe.vals_list = [jnp.asarray(a) for a in v]


def linear(name):
    return {'spsolve': {'spsolve_solver': {}}, 'petsc': {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}, 'jax': {'jax_solver': {}}}[name]


def check_solution(r, bc, u, u0, opts, ivs, sivs, what='', dirichlet=True):
    if not np.all(np.isfinite(u)):
        raise CheckFail('non-finite solution returned' + what)
    for d, v in r.bc_map(bc[1]).items():
        if dirichlet and not abs(u[d] - v) <= 1e-7 + opts.get('tol', 1e-6):
            raise CheckFail('Dirichlet value %g at dof %d is %g%s' % (v, d, u[d], what))
    tol, rel = opts.get('tol', 1e-6), opts.get('rel_tol', 1e-8)
    R = np.linalg.norm(r.imposed(u, bc[1], ivs, sivs))
    R0 = np.linalg.norm(r.imposed(u0, bc[1], ivs, sivs))
    if not R <= max(tol, rel * R0) * (1 + 1e-6) + 1e-12:
        raise CheckFail('residual %.3e of the returned solution exceeds tol=%g and rel_tol=%g times the initial %.3e%s' % (R, tol, rel, R0, what))
    return R, R0


def run(job, ctx):
    import jax.numpy as jnp
    from jax_fem.solver import solver
    cls = models.make_problem_class()
    if job['kind'] == 'divergent':
        return divergent(ctx, cls)
    form, mm, r, sets = make(job['lay'], cls)
    ivs, sivs = models.ref_ivs(form, r)
    p = models.build(cls, form, mm)
    if job['kind'] == 'grid':
        for s, bc in enumerate(sets):
            put_bc(p, bc)
            exact = r.newton(bc[1], ivs, sivs)
            zero = np.zeros(r.n)
            bcu = zero.copy()
            for d, v in r.bc_map(bc[1]).items():
                bcu[d] = v
            for g in job['guess']:
                u0 = {'absent': zero, 'zero': zero, 'bc': bcu, 'irregular': models.state(r.n, 1), 'jax': .5 * models.state(r.n, 2), 'exact': exact}[g]
                for k, t in enumerate(TOLS):
                    if k not in job.get('tols', range(4)) or (g == 'exact' and k == 2):
                        continue  # a relative reduction of round-off is not reachable

                    def f():
                        cfg = dict(t, line_search_flag=job['ls'], linear=linear(job['back']))
                        if g != 'absent':
                            sl = models.split_list(p, u0.copy())
                            cfg['initial_guess'] = [jnp.asarray(a) for a in sl] if g == 'jax' else sl
                        u = models.flat(solver(p, {'newton': cfg}))
                        R, R0 = check_solution(r, bc, u, u0, t, ivs, sivs)
                        ctx.add(transitions=1)
                        return 'residual %.2e from %.2e' % (R, R0)
                    ctx.case([job, s, g, k], f, nontrivial=g != 'exact')
        ctx.add(traces=1)
        return
    if job['kind'] == 'damped':
        return damped(job, ctx, p, r, sets, ivs, sivs)
    # ---- histories of solves on one problem
    pivs = [jnp.asarray(a) for a in models.iv_fields(1, np.asarray(p.physical_quad_points), .9)]
    piv0 = list(p.internal_vars)
    rivs = [ivs, models.iv_fields(1, r.geo[0]['x'], .9)]
    ops = ['solve', 'solve-ls', 'guess', 'bc', 'param', 'tangent']
    fresh = {}
    # each real problem is a new copy sharing compiled kernels with the untouched template
    import copy

    def world():
        q = copy.copy(p)
        q.fes = [copy.copy(fe) for fe in p.fes]
        put_bc(q, sets[0])
        q.internal_vars = list(piv0)
        return q

    def solve(q, op, st):
        cfg = dict(linear=linear('spsolve'), line_search_flag=op == 'solve-ls')
        if op == 'guess':
            cfg['initial_guess'] = models.split_list(q, models.state(r.n, 1))
        return models.flat(solver(q, {'newton': cfg}))

    def expected(op, st):
        k = (op, st)
        if k not in fresh:
            q = world()
            put_bc(q, sets[st[0]])
            q.internal_vars = list(pivs if st[1] else piv0)
            fresh[k] = solve(q, op, st)
            u0 = models.state(r.n, 1) if op == 'guess' else np.zeros(r.n)
            check_solution(r, sets[st[0]], fresh[k], u0, {}, rivs[st[1]], sivs)
        return fresh[k]
    states = set()
    for w in itertools.product(range(6), repeat=job['depth'] - len(job['pre'])):
        w = [ops[i] for i in job['pre']] + [ops[i] for i in w]

        def f():
            q = world()
            st = (0, 0)
            for op in w + ['solve']:
                if op == 'bc':
                    st = (1 - st[0], st[1])
                    put_bc(q, sets[st[0]])
                elif op == 'param':
                    st = (st[0], 1 - st[1])
                    q.set_params(dict(iv=pivs if st[1] else piv0))
                elif op == 'tangent':
                    from jax_fem.solver import get_A
                    q.newton_update([jnp.asarray(a) for a in models.split_list(q, models.state(r.n, 2))])
                    get_A(q)
                else:
                    u = solve(q, op, st)
                    if not ref.close(u, expected(op, st), 1e-12, 1e-12):
                        raise CheckFail('%s in state %s after %s differs from a fresh problem: %s' % (op, st, w, ref.diff(u, expected(op, st))))
                ctx.add(transitions=1)
                if (st, op) not in states:
                    states.add((st, op))
                    ctx.add(states=1)
            ctx.add(traces=1)
        ctx.case(['history', job['lay'], w], f, nontrivial=any(o in ('bc', 'param', 'guess') for o in w))


def damped(job, ctx, p, r, sets, ivs, sivs):
    """Slow convergence: the linear solver returns a fraction of the exact increment, so that hundreds of iterations may be needed."""
    import jax.numpy as jnp
    import scipy.sparse
    import scipy.sparse.linalg
    from jax_fem.solver import solver
    th = job['theta']

    def custom(A, b, x0, o):
        i, j, v = A.getValuesCSR()
        return jnp.asarray(th * scipy.sparse.linalg.spsolve(scipy.sparse.csr_matrix((v, j, i), shape=A.getSize()).tocsc(), np.asarray(b)))
    for s, bc in enumerate(sets):
        if s not in job['sets']:
            continue
        put_bc(p, bc)
        for g, u0 in (('zero', np.zeros(r.n)), ('irregular', models.state(r.n, 1))):
            for k, t in enumerate(TOLS):
                for ls in (False, True):
                    if (ls and (k or th < .1)) or g not in job['guess'] or k not in job['tols']:
                        continue

                    def f():
                        cfg = dict(t, line_search_flag=ls, linear={'custom_solver': custom}, initial_guess=models.split_list(p, u0.copy()))
                        try:
                            u = models.flat(solver(p, {'newton': cfg}))
                        except Exception as e:
                            ctx.outcome('raised ' + type(e).__name__)
                            return 'raised'
                        R, R0 = check_solution(r, bc, u, u0, t, ivs, sivs, '', False)
                        ctx.add(transitions=1)
                        ctx.outcome('returned')
                        return 'residual %.2e from %.2e' % (R, R0)
                    ctx.case(['damped', job['lay'], th, s, g, k, ls], f)


def divergent(ctx, cls):
    """Problems whose residual or tangent is not finite must not return."""
    import jax.numpy as jnp
    from jax_fem.solver import solver
    from jax_fem.problem import Problem
    from jax_fem.generate_mesh import Mesh
    pts, cells = meshes.mesh('QUAD4', [2, 1])
    kinds = {'nan-source': lambda u, x: u * 0. + jnp.nan, 'inf-source': lambda u, x: u * 0. + jnp.inf,
             'log': lambda u, x: jnp.log(u - 5.), 'sqrt': lambda u, x: jnp.sqrt(u - 3.) - 1.}
    for k, fn in kinds.items():
        for back in ('spsolve', 'petsc', 'jax'):
            for bc in (True, False):
                class P(Problem):
                    def get_tensor_map(self):
                        return lambda g: g

                    def get_mass_map(self):
                        return fn

                def f():
                    info = [[lambda x: jnp.isclose(x[0], 0.)], [0], [lambda x: 1.]] if bc else None
                    p = P(Mesh(pts, cells, ele_type='QUAD4'), vec=1, dim=2, ele_type='QUAD4', dirichlet_bc_info=info)
                    try:
                        sol = solver(p, {'newton': {'linear': linear(back)}})
                    except Exception as e:
                        ctx.outcome('raised ' + type(e).__name__)
                        return 'raised'
                    if not np.all(np.isfinite(np.asarray(sol[0]))):
                        raise CheckFail('non-finite solution returned silently')
                    res = np.asarray(p.compute_residual(sol)[0])
                    if not np.all(np.isfinite(res)):
                        raise CheckFail('solution with non-finite residual returned silently')
                    raise CheckFail('a problem without solution returned one')
                ctx.case(['divergent', k, back, bc], f)
