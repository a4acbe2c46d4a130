"""C14: multipoint constraints by a reduction matrix.  Space: tie patterns x weights x Dirichlet sets x backends x guesses x line search,
histories of attaching, exchanging and removing the matrix, and all small periodic grids for the periodic example's builder."""
import copy
import itertools
import numpy as np
import scipy.sparse as sp
from mc import ref, meshes, models, apps
from mc.core import CheckFail
from mc.checks import c08

LEVEL = 'exploration'
RULE = ('one case per (problem, tie pattern, backend, guess, line search): solution in the range of P, Dirichlet values, reduced imposed reference residual below the stopping rule, '
        'equal to the reference constrained equilibrium; per history of attached matrices: each solve equals that of a fresh problem; per periodic grid: the builder matrix equals the one from coordinates; '
        'non-trivial: at least one degree of freedom is tied')
BOUND = {'quick': 'vector QUAD4: all ordered pairs of free dofs x 3 weights; all disjoint two-tie patterns of 5 dofs; chains of shared masters; two coupled layouts; consistent Dirichlet ties; 3 backends x 3 guesses x 2 line-search settings; '
         'histories of length 3 over 5 operations; periodic grids up to 3x3 (2x2x2 in 3D) of 5 element types x component sets x axes x numberings',
         'thorough': 'six layouts, all two-tie patterns of 7 dofs, full backend grid on all patterns, histories of length 4, grids up to 4x4 (3x2x2 in 3D) of all nine types'}
ASSUMPTIONS = ['Dirichlet values are consistent with the ties', 'tied problems of the menu converge under plain Newton from the listed guesses']
BACK = ['spsolve', 'petsc', 'jax']
GUESS = ['absent', 'irregular', 'exact']


def jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for lay in (['vector', 'coupled'] if q else ['vector', 'coupled', 'scalar3', 'tri6', 'tet', 'three']):
        for part in range(4):
            js.append(dict(kind='single', lay=lay, part=[part, 4], weights=[1., -1., .5] if lay == 'vector' or not q else [1.], cap=None if lay == 'vector' else (6 if q else 9)))
        js.append(dict(kind='double', lay=lay, n=5 if q else 7))
        js.append(dict(kind='special', lay=lay))
        for b in BACK:
            for ls in (False, True):
                if b == 'jax' and q and lay != 'vector':
                    continue
                js.append(dict(kind='options', lay=lay, back=b, ls=ls, pats=3 if q else 12, guess=GUESS if b != 'jax' or not q else ['absent']))
        for a in range(5):
            js.append(dict(kind='history', lay=lay, pre=[a], depth=(3 if lay == 'vector' else 2) if q else (4 if lay == 'vector' else 3)))
    for ele in (['QUAD4', 'TRI3', 'TRI6', 'QUAD8', 'HEX8'] if q else ref.TYPES):
        js.append(dict(kind='builder', ele=ele, n=(3 if ref.ELE[ele]['dim'] == 2 else 2) if q else (4 if ref.ELE[ele]['dim'] == 2 else 3)))
    for ele in (['QUAD4', 'TRI6'] if q else ['QUAD4', 'TRI6', 'QUAD8', 'HEX8']):
        js.append(dict(kind='periodic', ele=ele))
    js.sort(key=lambda j: 0 if j.get('back') == 'jax' else 1)
    return js


def tie(n, ties, extra=None):
    """P for slaves s = sum of weights * masters; ties = {s: [(m, c), ...]}."""
    keep = [d for d in range(n) if d not in ties]
    pos = {d: i for i, d in enumerate(keep)}
    P = np.zeros((n, len(keep)))
    for d in keep:
        P[d, pos[d]] = 1.
    for s, ms in ties.items():
        for m, c in ms:
            P[s, pos[m]] += c
    return sp.csr_array(P)


class World:
    def __init__(self, lay):
        self.form, self.mm, self.r, self.sets = c08.make(lay, None)
        self.ivs, self.sivs = models.ref_ivs(self.form, self.r)
        self.p = models.build(models.make_problem_class(), self.form, self.mm)
        self.set(0)

    def set(self, k, values=None):
        self.k, self.nb = k, self.sets[k]
        if values is not None:
            self.nb = values
        c08.put_bc(self.p, self.nb)
        self.m = ref.RefModel.bc_map(self.nb[1])
        self.free = [d for d in range(self.r.n) if d not in self.m]

    def exact(self, P):
        P = P.toarray()
        z = np.linalg.lstsq(P, self.lift(), rcond=None)[0]
        for _ in range(60):
            c = P.T @ self.r.imposed(P @ z, self.nb[1], self.ivs, self.sivs)
            if np.linalg.norm(c) < 1e-12:
                break
            z = z - np.linalg.solve(P.T @ self.r.imposed_jacobian(P @ z, self.nb[1], self.ivs, self.sivs) @ P, c)
        return (z, P @ z) if np.linalg.norm(c) < 1e-10 else (None, None)

    def lift(self):
        u = np.zeros(self.r.n)
        for d, v in self.m.items():
            u[d] = v
        return u

    def verify(self, P, u, z0, opts, what=''):
        if u.shape != (self.r.n,) or not np.all(np.isfinite(u)):
            raise CheckFail('no finite solution of the full size' + what)
        z = np.linalg.lstsq(P.toarray(), u, rcond=None)[0]
        e = np.abs(P @ z - u).max()
        if not e <= 1e-9 * (1 + np.abs(u).max()):
            raise CheckFail('the solution is not in the range of P (distance %g)%s' % (e, what))
        for d, v in self.m.items():
            if not abs(u[d] - v) <= 2e-6:
                raise CheckFail('Dirichlet value %g at dof %d is %g%s' % (v, d, u[d], what))
        R = np.linalg.norm(P.T @ self.r.imposed(u, self.nb[1], self.ivs, self.sivs))
        R0 = np.linalg.norm(P.T @ self.r.imposed(P @ z0, self.nb[1], self.ivs, self.sivs))
        if not R <= max(opts.get('tol', 1e-6), opts.get('rel_tol', 1e-8) * R0) * (1 + 1e-6) + 1e-11:
            raise CheckFail('reduced imposed residual %g exceeds the stopping rule (initially %g)%s' % (R, R0, what))
        return R


def solve(p, back='spsolve', ls=False, z0=None, **kw):
    from jax_fem.solver import solver
    cfg = dict(kw, line_search_flag=ls, linear=c08.linear(back))
    if z0 is not None:
        cfg['initial_guess'] = np.array(z0)
    return models.flat(solver(p, {'newton': cfg}))


def run(job, ctx):
    if job['kind'] == 'builder':
        return builder(job, ctx)
    if job['kind'] == 'periodic':
        return periodic(job, ctx)
    w = World(job['lay'])
    n = w.r.n
    tol = dict(tol=1e-9)

    def one(P, what='', back='spsolve', ls=False, guess='absent', opts=tol, prob=None):
        z, star = w.exact(P)
        if star is None:
            ctx.outcome('reference does not converge: skipped')
            return 'skipped'
        prob = prob or w.p
        prob.P_mat = P
        try:
            z0 = {'absent': None, 'irregular': models.state(P.shape[1], 1), 'exact': z}[guess]
            if guess == 'exact' and back != 'spsolve':
                z0 = z + 1e-3 * np.cos(np.arange(len(z)))
            u = solve(prob, back, ls, z0, **opts)
        finally:
            del prob.P_mat
        R = w.verify(P, u, np.zeros(P.shape[1]) if z0 is None else z0, opts, what)
        if not np.abs(u - star).max() <= 2e-5 * (1 + np.abs(star).max()):
            raise CheckFail('differs from the constrained equilibrium by %g%s' % (np.abs(u - star).max(), what))
        ctx.outcome('constrained equilibrium')
        return R
    if job['kind'] == 'single':
        fr = w.free
        if job['cap']:
            fr = [fr[i] for i in np.unique(np.linspace(0, len(fr) - 1, job['cap']).astype(int))]
        pats = [(s, m, c) for s, m in itertools.permutations(fr, 2) for c in job['weights']]
        for s, m, c in pats[job['part'][0]::job['part'][1]]:
            ctx.case(['tie', s, m, c], lambda: one(tie(n, {s: [(m, c)]})))
    elif job['kind'] == 'double':
        fr = [w.free[i] for i in np.unique(np.linspace(0, len(w.free) - 1, job['n']).astype(int))]
        for s1, s2 in itertools.combinations(fr, 2):
            rest = [d for d in fr if d not in (s1, s2)]
            for m1, m2 in itertools.product(rest, repeat=2):
                ctx.case(['ties', s1, m1, s2, m2], lambda: one(tie(n, {s1: [(m1, 1.)], s2: [(m2, .7), (rest[0], .3)]})))
    elif job['kind'] == 'special':
        I = sp.csr_array(np.eye(n))
        star = w.r.newton(w.nb[1], w.ivs, w.sivs)

        def same(P, what):
            w.p.P_mat = P
            try:
                u = solve(w.p, **tol)
            finally:
                del w.p.P_mat
            if not ref.close(u, star, 1e-8, 1e-8):
                raise CheckFail('%s does not give the unconstrained solution: %s' % (what, ref.diff(u, star)))
        ctx.case(['identity'], lambda: same(I, 'the identity matrix'), nontrivial=False)
        perm = np.argsort(np.cos(np.arange(n) * 1.7))
        ctx.case(['permutation'], lambda: same(sp.csr_array(np.eye(n)[perm]), 'a permutation matrix'))
        ctx.case(['scaled'], lambda: same(sp.csr_array(np.diag(1. + .5 * np.sin(np.arange(n)))), 'a diagonal matrix'))
        ctx.case(['dense'], lambda: same(sp.csr_array(np.eye(n) + .2 * np.triu(np.ones((n, n)), 1)), 'a full nonsingular matrix'))
        fr = w.free
        ctx.case(['none tied'], lambda: one(tie(n, {})))
        for k in range(1, min(6, len(fr) - 1)):
            ctx.case(['many slaves', k], lambda: one(tie(n, {s: [(fr[0], 1. / (1 + i % 2))] for i, s in enumerate(fr[1:1 + k])})))
            ctx.case(['homogeneous', k], lambda: one(tie(n, {s: [] for s in fr[-k:]})))
            ctx.case(['average', k], lambda: one(tie(n, {fr[-1]: [(m, 1. / k) for m in fr[:k]]})))
        # explicit zeros stored in P, unsorted columns and repeated entries
        P = tie(n, {fr[-1]: [(fr[0], .5), (fr[1], .5)]})
        c = P.tocoo()
        r, cc, v = np.r_[c.row, c.row], np.r_[c.col, c.col], np.r_[.25 * c.data, .75 * c.data]
        Pz = sp.csr_array((np.r_[v, 0.], (np.r_[r, 2], np.r_[cc, 0])), shape=P.shape)
        ctx.case(['stored zeros'], lambda: one(Pz))
        # Dirichlet sets that contain master and slave with consistent values
        for k in range(2):
            w.set(k)
            ds = list(w.m)
            for i, j in itertools.permutations(range(min(4, len(ds))), 2):
                for c in (1., -.5):
                    def f():
                        vals = copy.deepcopy(w.sets[k])
                        m = dict(w.m)
                        m[ds[j]] = c * m[ds[i]]
                        _revalue(w, vals, m)
                        w.set(k, vals)
                        try:
                            return one(tie(n, {ds[j]: [(ds[i], c)], w.free[-1]: [(w.free[0], 1.)]}))
                        finally:
                            w.set(k)
                    ctx.case(['dirichlet', k, i, j, c], f)
    elif job['kind'] == 'options':
        for k in range(2):
            w.set(k)
            fr = w.free
            pats = [{fr[-1]: [(fr[0], 1.)]}, {fr[1]: [(fr[-1], .5), (fr[2], .5)], fr[3]: [(fr[0], -1.)]}, {s: [(fr[0], 1.)] for s in fr[1:4]}]
            pats += [{fr[i]: [(fr[(i * 3 + 1) % len(fr)], .8)]} for i in range(len(fr)) if (i * 3 + 1) % len(fr) != i]
            for i, t in enumerate(pats[:job['pats']]):
                for g in job['guess']:
                    for o, opts in enumerate([{}, dict(tol=1e-9, rel_tol=1e-14), dict(tol=1e-30, rel_tol=1e-6)]):
                        if o == 2 and g == 'exact' or o and job['back'] == 'jax':
                            continue
                        ctx.case(['options', k, i, g, o], lambda: one(tie(n, t), back=job['back'], ls=job['ls'], guess=g, opts=opts))
    else:
        fr = w.free
        Ps = {0: tie(n, {fr[-1]: [(fr[0], 1.)]}), 1: tie(n, {fr[1]: [(fr[2], .5), (fr[-1], .5)], fr[3]: [(fr[0], 1.)]})}
        fresh = {}

        def clone():
            q = copy.copy(w.p)
            q.fes = [copy.copy(fe) for fe in w.p.fes]
            q.__dict__.pop('_petsc_tangent_cache', None)
            return q

        def put(q, st):
            c08.put_bc(q, w.sets[st[1]])
            q.__dict__.pop('P_mat', None)
            if st[0] is not None:
                q.P_mat = Ps[st[0]]

        def expected(st):
            if st not in fresh:
                q = clone()
                put(q, st)
                fresh[st] = solve(q)
            return fresh[st]
        # 0 attach P0, 1 attach P1, 2 remove, 3 other Dirichlet set, 4 solve
        for rest in itertools.product(range(5), repeat=job['depth'] - len(job['pre'])):
            word = job['pre'] + list(rest)

            def f():
                q = clone()
                st = (None, 0)
                put(q, st)
                for o in word + [4]:
                    if o < 3:
                        st = ([0, 1, None][o], st[1])
                        q.__dict__.pop('P_mat', None)
                        if st[0] is not None:
                            q.P_mat = Ps[st[0]]
                    elif o == 3:
                        st = (st[0], 0 if st[0] is not None and st[0] == 9 else 1 - st[1])
                        c08.put_bc(q, w.sets[st[1]])
                    else:
                        u = solve(q)
                        if not ref.close(u, expected(st), 1e-10, 1e-10):
                            raise CheckFail('solve in state %s after %s differs from a fresh problem: %s' % (st, word, ref.diff(u, expected(st))))
                        if q.__dict__.get('P_mat', None) is not (Ps[st[0]] if st[0] is not None else None):
                            raise CheckFail('the attached matrix was exchanged')
                u = expected(st)
                if st[0] is not None:
                    d = np.abs(Ps[st[0]] @ np.linalg.lstsq(Ps[st[0]].toarray(), u, rcond=None)[0] - u).max()
                    if not d <= 1e-9:
                        raise CheckFail('solution not in the range of the attached matrix (%g)' % d)
            ctx.case(['history', word], f, nontrivial=any(o < 2 for o in word))


def _revalue(w, vals, m):
    """Write the dof values m into the per-variable Dirichlet lists (in place)."""
    off = np.concatenate([[0], np.cumsum([len(a[0]) * v for a, v in zip(w.mm, w.form['vecs'])])]).astype(int)
    k = 0
    for var, (nodes, comps, values) in enumerate(vals[0]):
        for i in range(len(nodes)):
            dofs = off[var] + np.asarray(nodes[i]) * w.form['vecs'][var] + np.asarray(comps[i])
            values[i] = np.array([m[int(d)] for d in dofs])
    flatbc = []
    for var, (nodes, comps, values) in enumerate(vals[0]):
        for i in range(len(nodes)):
            flatbc.append((off[var] + np.asarray(nodes[i]) * w.form['vecs'][var] + np.asarray(comps[i]), np.asarray(values[i])))
    vals[1][:] = flatbc


# ------------------------------------------------------------------ the periodic example
def grids(ele, n):
    dim = ref.ELE[ele]['dim']
    return list(itertools.product(range(1, n + 1), repeat=dim)) if dim == 2 else [(a, b, c) for a in range(1, n + 1) for b in (1, 2) for c in (1, 2)]


def numbered(pts, cells, k):
    """Renumber the nodes: k = 0 keep, otherwise a fixed irregular permutation."""
    if k == 0:
        return pts, cells
    perm = np.argsort(np.sin((k + 1.3) * np.arange(len(pts)) ** 1.1))
    inv = np.argsort(perm)
    return pts[perm], inv[cells]


def info_for(entries, size, skip=None):
    """periodic_bc_info: entries = [(axis, component, reversed)]; A face at 0 and B face at size (or the other way round)."""
    import jax.numpy as jnp
    A, B, maps, vecs = [], [], [], []
    for d, comp, rev in entries:
        lo, hi = (size[d], 0.) if rev else (0., size[d])
        other = 1 - d if len(size) == 2 else None

        def inside(x, at, d=d):
            v = jnp.isclose(x[d], at, atol=1e-5)
            if skip is not None:  # leave out the edges shared with the other periodic direction
                for e in range(len(size)):
                    if e != d:
                        v = v & (x[e] > 1e-6) & (x[e] < size[e] - 1e-6)
            return v
        A.append(lambda x, f=inside, at=lo: f(x, at))
        B.append(lambda x, f=inside, at=hi: f(x, at))
        shift = np.zeros(len(size))
        shift[d] = hi - lo
        maps.append(lambda x, s=shift: x + s)
        vecs.append(comp)
    return [A, B, maps, vecs]


class _Mesh:
    def __init__(self, points, cells):
        self.points, self.cells = points, cells


def builder(job, ctx):
    import jax.numpy as jnp
    ex = apps.load(ctx, 'periodic_bc')
    ele = job['ele']
    dim = ref.ELE[ele]['dim']
    size = [1.2, .8, 1.][:dim]
    for g in grids(ele, job['n']):
        for vec in (1, 2, 3):
            menus = [[(d, c, rev)] for d in range(dim) for c in range(vec) for rev in (0, 1)]
            menus += [[(0, c, 0) for c in range(vec)]] if vec > 1 else []
            menus += [[(1, vec - 1, 1), (0, 0, 0)]] if vec > 1 else []
            menus += [[(d, d % vec, 0) for d in range(dim)]] if vec >= dim else []
            for num in (0, 1, 2):
                for i, entries in enumerate(menus):
                    if num and (i + num) % 2:
                        continue
                    skip = True if len(set(c for _, c, _ in entries)) < len(entries) else None

                    def f():
                        pts, cells = numbered(*meshes.mesh(ele, list(g), size), num)
                        P = ex.periodic_boundary_conditions(info_for(entries, size, skip), _Mesh(pts if num != 2 else jnp.asarray(pts), cells), vec)
                        P = P.toarray()
                        master = {}
                        for d, c, rev in entries:
                            for a in range(len(pts)):
                                lo = size[d] if rev else 0.
                                if abs(pts[a, d] - lo) < 1e-6 and (skip is None or all(1e-6 < pts[a, e] < size[e] - 1e-6 for e in range(dim) if e != d)):
                                    tgt = pts[a].copy()
                                    tgt[d] = 0. if rev else size[d]
                                    b = int(np.argmin(np.abs(pts - tgt).sum(1)))
                                    master[b * vec + c] = a * vec + c
                        N = len(pts) * vec
                        if P.shape != (N, N - len(master)):
                            raise CheckFail('matrix of shape %s, expected %s' % (P.shape, (N, N - len(master))))
                        if not np.all((P == 0) | (P == 1)) or not np.all(P.sum(1) == 1):
                            raise CheckFail('every full dof must follow exactly one reduced dof with weight one')
                        if np.any(P.sum(0) < 1):
                            raise CheckFail('a reduced dof without full dof')
                        col = P.argmax(1)
                        for d in range(N):
                            m = master.get(d)
                            group = {e for e in range(N) if col[e] == col[d]}
                            root = m if m is not None else d
                            want = {root} | {s for s, mm in master.items() if mm == root}
                            if group != want:
                                raise CheckFail('dof %d is tied to %s, expected %s' % (d, sorted(group), sorted(want)))
                        return len(master)
                    ctx.case(['builder', g, vec, num, entries], f)
    # faces that do not match are rejected
    pts, cells = meshes.mesh(ele, [2] * dim, size)
    for k in range(3):
        def f():
            info = info_for([(0, 0, 0)], size)
            if k == 0:
                info[2] = [lambda x: x + np.r_[.5 * size[0], np.zeros(dim - 1)]]
            elif k == 1:
                info[1] = [lambda x: jnp.isclose(x[0], size[0]) & (x[1] > 1e-6)]
            else:
                info[2] = [lambda x: x + np.r_[size[0], .1 * np.ones(dim - 1)]]
            try:
                ex.periodic_boundary_conditions(info, _Mesh(pts, cells), 1)
            except Exception as e:
                ctx.outcome('unmatched face rejected')
                return 'rejected'
            raise CheckFail('faces whose nodes do not match were accepted')
        ctx.case(['mismatch', k], f)


def periodic(job, ctx):
    """The builder's matrix in a solve: the solution is periodic and in constrained equilibrium."""
    ex = apps.load(ctx, 'periodic_bc')
    ele = job['ele']
    dim = ref.ELE[ele]['dim']
    size = [1.2, .8, 1.][:dim]
    for vec, g in itertools.product((1, 2), [[2, 2, 1][:dim], [3, 1, 1][:dim]]):
        mm = [meshes.mesh(ele, g, size)]
        pts = mm[0][0]
        form = dict(eles=[ele], vecs=[vec], T='nl', M='nl', U=None, surf=[['y+', 'load', None]], iv=1)
        r = models.reference(form, mm)
        p = models.build(models.make_problem_class(), form, mm)
        iv = models.ref_ivs(form, r)
        base = np.where(np.abs(pts[:, 1]) < 1e-9)[0]
        for entries in [[(0, c, rev) for c in range(k)] for k in range(1, vec + 1) for rev in (0, 1)]:
            def f():
                P = ex.periodic_boundary_conditions(info_for(entries, size), _Mesh(*mm[0]), vec)
                nb = [([np.array(base)], [np.zeros(len(base), int)], [np.full(len(base), .2)])], [(base * vec, np.full(len(base), .2))]
                w = object.__new__(World)
                w.form, w.mm, w.r, w.sets, w.p = form, mm, r, [nb], p
                w.ivs, w.sivs = iv
                w.set(0)
                p.P_mat = P
                try:
                    u = solve(p, tol=1e-9)
                finally:
                    del p.P_mat
                w.verify(P, u, np.zeros(P.shape[1]), dict(tol=1e-9))
                U = u.reshape(-1, vec)
                for d, c, rev in entries:
                    for a in np.where(np.abs(pts[:, d]) < 1e-9)[0]:
                        t = pts[a].copy()
                        t[d] = size[d]
                        b = int(np.argmin(np.abs(pts - t).sum(1)))
                        if not abs(U[a, c] - U[b, c]) <= 1e-12:
                            raise CheckFail('component %d differs between periodic partners by %g' % (c, abs(U[a, c] - U[b, c])))
                star = w.exact(P)[1]
                if star is not None and not ref.close(u, star, 1e-6, 1e-7):
                    raise CheckFail('not the periodic equilibrium: %s' % ref.diff(u, star))
            ctx.case(['periodic', vec, g, entries], f)
