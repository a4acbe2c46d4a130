"""C07: no stale tangent matrices.  Explicit enumeration of all operation histories up to a depth against a reference model."""
import copy
import itertools
import numpy as np
from mc import ref, meshes, models
from mc.core import CheckFail
from mc.checks.c05 import dense

LEVEL = 'model_checking'
RULE = ('one case per history: every word over the operation alphabet up to the stated length, executed on fresh problems; every matrix '
        'request compared entrywise with the matrix of the model state; non-trivial: the word changes the system after a tangent update')
BOUND = {'quick': 'all words of length 3 over 12 operations (3 layouts), all words of length 3 over 2x5 operations on two interleaved problems; each followed by a matrix request',
         'thorough': 'all words of length 4 over 12 operations (3 layouts), length 4 over 2x5 operations on two problems'}
ASSUMPTIONS = ['index arrays are replaced, not mutated in place']

LAY = {'vector': (['QUAD4'], [2]), 'coupled': (['QUAD8', 'QUAD4'], [2, 1]), 'reduced': (['QUAD4'], [2])}
# condition sets: two of equal shapes on different dofs, one of another size, one empty, one re-ordered
SETS = {'B0': [], 'B1': [[0, 'x-', 0, 'const'], [0, 'x-', 1, 'zero']], 'B2': [[0, 'x+', 0, 'const'], [0, 'x+', 1, 'zero']],
        'B3': [[0, 'y+', 1, 'x']], 'BX': [[0, 'x-', 0, 'x'], [0, 'x-', 1, 'const']]}
# conditions on the second variable of the coupled layout, which has another number of components
SECOND = {'B1': [[1, 'x-', 0, 'const']], 'B2': [[1, 'x+', 0, 'const']], 'BX': [[1, 'y-', 0, 'x']]}
OPS1 = ['B0', 'B1', 'B2', 'B3', 'R', 'A', 'S', 'V', 'P', 'N0', 'N1', 'G']
OPS2 = ['B1', 'B2', 'R', 'N1', 'G']


def jobs(tier, seed):
    js = []
    d1, d2 = (3, 3) if tier == 'quick' else (4, 4)
    for lay in LAY:
        for first in OPS1:
            if tier == 'quick':
                js.append(dict(kind='one', lay=lay, pre=[first], depth=d1))
            else:
                js += [dict(kind='one', lay=lay, pre=[first, s], depth=d1) for s in OPS1]
    ops2 = OPS2
    alpha = [a + str(i) for a in ops2 for i in (0, 1)]
    for first in alpha:
        if tier == 'quick':
            js.append(dict(kind='two', lay='vector', pre=[first], depth=d2, ops=ops2))
        else:
            js += [dict(kind='two', lay='vector', pre=[first, s], depth=d2, ops=ops2) for s in alpha]
    return js


class World:
    """Real problem and its model, driven by the same operations."""

    def __init__(self, cls, form, mm, r, ivsets, jacs, P, jnp, get_A, initial, template=None, which=0):
        info = models.bc_info(self.conditions(initial, form), len(form['eles']), mm[0][0])
        if template is None:
            self.p = models.build(cls, form, mm, bc=info)
        else:   # an untouched copy that shares the compiled kernels
            self.p = copy.copy(template)
            self.p.fes = [copy.copy(fe) for fe in template.fes]
            for fe, i in zip(self.p.fes, [info] if len(form['eles']) == 1 else info):
                fe.update_Dirichlet_boundary_conditions(i)
        self.jnp, self.get_A, self.r, self.mm, self.jacs, self.ivsets = jnp, get_A, r, mm, jacs, ivsets
        self.form, self.P = form, P
        if P is not None:
            self.p.P_mat = P
        self.take(initial)
        self.par, self.last = 0, None
        self.n0 = which
        self.k = 0

    @staticmethod
    def conditions(name, form):
        return SETS[name] + (SECOND.get(name, []) if len(form['eles']) > 1 else [])

    def take(self, name):
        self.conds = models.ref_bc(SETS[name], self.r)
        self.conds1 = models.ref_bc(self.conditions(name, self.form)[len(SETS[name]):], self.r)

    def key(self):
        return (tuple(tuple(sorted(np.asarray(d).tolist())) for d, _ in self.conds + self.conds1), self.par, self.last, self.k % 2)

    def apply(self, op):
        jnp, p, r = self.jnp, self.p, self.r
        if op[0] == 'B':
            info = models.bc_info(self.conditions(op, self.form), len(self.form['eles']), self.mm[0][0])
            for fe, i in zip(p.fes, [info] if len(self.form['eles']) == 1 else info):
                fe.update_Dirichlet_boundary_conditions(i)
            self.take(op)
            return
        if op == 'P':
            self.par = 1 - self.par
            p.set_params(dict(iv=[jnp.asarray(a) for a in self.ivsets[1][self.par]]))
            return
        fe = p.fes[0]
        if op == 'R':   # replace the index arrays of the first condition by others of the same length
            self.k += 1
            if fe.node_inds_list:
                m = len(fe.node_inds_list[0])
                nodes = (np.arange(m) + self.k) % fe.num_total_nodes
                comp = self.k % 2
                fe.node_inds_list[0] = jnp.asarray(nodes)
                fe.vec_inds_list[0] = jnp.asarray(np.full(m, comp))
                self.conds[0] = (nodes * fe.vec + comp, np.asarray(fe.vals_list[0]))
            return
        if op == 'S':   # change only the component array
            if fe.node_inds_list:
                old = np.asarray(fe.vec_inds_list[-1])
                fe.vec_inds_list[-1] = jnp.asarray(1 - old)
                self.conds[-1] = (np.asarray(fe.node_inds_list[-1]) * fe.vec + 1 - old, np.asarray(fe.vals_list[-1]))
            return
        if op == 'A':   # append one constrained degree of freedom, as the Stokes example does for the pressure
            self.k += 1
            nd = (2 + self.k) % fe.num_total_nodes
            fe.node_inds_list.append(jnp.asarray([nd]))
            fe.vec_inds_list.append(jnp.asarray([1]))
            fe.vals_list.append(jnp.asarray([.5]))
            self.conds.append((np.array([nd * fe.vec + 1]), np.array([.5])))
            if len(p.fes) > 1:
                fe = p.fes[1]
                nd = nd % fe.num_total_nodes
                fe.node_inds_list.append(jnp.asarray([nd]))
                fe.vec_inds_list.append(jnp.asarray([0]))
                fe.vals_list.append(jnp.asarray([.7]))
                self.conds1.append((np.array([r.off[1] + nd * fe.vec]), np.array([.7])))
            return
        if op == 'V':
            fe.vals_list = [v * 2. + 1. for v in fe.vals_list]
            self.conds = [(d, np.asarray(v)) for (d, _), v in zip(self.conds, fe.vals_list)]
            return
        if op[0] == 'N':
            s = int(op[1])
            got = p.newton_update([jnp.asarray(a) for a in models.split_list(p, models.state(r.n, 1 + s))])
            self.last = (self.par, s)
            if not ref.close(models.flat(got), self.jacs[self.last][1], 1e-9, 1e-9):
                raise CheckFail('residual of the tangent update is stale: ' + ref.diff(models.flat(got), self.jacs[self.last][1]))
            return
        assert op == 'G'
        if self.last is None:
            return  # nothing to ask for yet
        A = dense(self.get_A(p))
        W = self.jacs[self.last][0].copy()
        for d in r.bc_map(self.conds + self.conds1):
            W[d] = 0.
            W[d, d] = 1.
        if self.P is not None:
            P = self.P.toarray()
            W = P.T @ W @ P
        if not ref.close(A, W, 1e-9, 1e-9):
            bad = np.unique(np.where(np.abs(A - W) > 1e-9)[0]) if A.shape == W.shape else '-'
            raise CheckFail('matrix differs from the one of the current state in rows %s: %s' % (bad, ref.diff(A, W)))


def setup(lay):
    import jax.numpy as jnp
    import scipy.sparse
    from jax_fem.solver import get_A
    eles, vecs = LAY[lay]
    mm = [meshes.mesh(e, [2, 1]) for e in eles]
    one = len(eles) == 1
    form = dict(eles=eles, vecs=vecs, T='nl' if one else None, M='nl' if one else None, U=None if one else 'nl',
                surf=[['y+', 'nl', None]] if one else [['y+', None, 'lin']], iv=1)
    r = models.reference(form, mm)
    ivs = [models.iv_fields(1, r.geo[0]['x'], .9 * k) for k in (0, 1)]
    sivs = models.ref_ivs(form, r)[1]
    jacs = {(k, s): (r.jacobian(models.state(r.n, 1 + s), ivs[k], sivs), r.residual(models.state(r.n, 1 + s), ivs[k], sivs)) for k in (0, 1) for s in (0, 1)}
    cls = models.make_problem_class()
    x = np.asarray(models.build(cls, form, mm).physical_quad_points)
    pivs = [models.iv_fields(1, x, .9 * k) for k in (0, 1)]
    P = None
    if lay == 'reduced':
        keep = [i for i in range(r.n) if i not in (r.n - 1, r.n - 3)]
        P = np.zeros((r.n, len(keep)))
        for c, i in enumerate(keep):
            P[i, c] = 1.
        P[r.n - 1, 0] = 1.
        P[r.n - 3, 1], P[r.n - 3, 2] = .5, .5
        P = scipy.sparse.csr_array(P)
    template = models.build(cls, form, mm)
    return lambda init='B1', fresh=False: World(cls, form, mm, r, (ivs, pivs), jacs, P, jnp, get_A, init, None if fresh else template)


def run(job, ctx):
    mk = setup(job['lay'])
    seen = set()
    if job['kind'] == 'one':
        words = [job['pre'] + list(w) for w in itertools.product(OPS1, repeat=job['depth'] - len(job['pre']))]
    else:
        alpha = [a + '@' + str(i) for a in job['ops'] for i in (0, 1)]
        pre = [a[:-1] + '@' + a[-1] for a in job['pre']]
        words = [pre + list(w) for w in itertools.product(alpha, repeat=job['depth'] - len(pre))]
    for w in words:
        def f():
            if job['kind'] == 'one':
                ws = [mk(fresh=w[-1] == 'G')]
                # the caches exist from the start in every other word
                steps = ([('N0', 0), ('G', 0)] if sum(map(len, w)) % 2 else [('N0', 0)]) + [(o, 0) for o in w] + [('G', 0)]
            else:
                ws = [mk('B1'), mk('B2')]
                steps = [('N0', 0), ('N0', 1)] + [(o.split('@')[0], int(o.split('@')[1])) for o in w] + [('G', 0), ('G', 1)]
            for o, i in steps:
                ws[i].apply(o)
                ctx.add(transitions=1)
                k = (job['lay'], i, len(ws)) + ws[i].key()
                if k not in seen:
                    seen.add(k)
                    ctx.add(states=1)
            ctx.add(traces=1)
            return steps
        ctx.case([job['kind'], job['lay'], w], f, nontrivial=any(o[0] in 'BRASP' for o in w))
    # a caller who alters the returned matrix does not influence later requests
    if job['kind'] == 'one' and job['pre'][0] in ('N0', 'B1') and job['depth'] in (3, 4) and len(job['pre']) in (1, 2) and job['pre'][-1] in ('N0', 'B1'):
        for o in ('scale', 'zero'):
            for w in itertools.product(['G', 'B2', 'N1', 'P'], repeat=2):
                def f():
                    x = mk()
                    x.apply('N0')
                    A = x.get_A(x.p)
                    A.scale(3.) if o == 'scale' else A.zeroEntries()
                    for op in w + ('G',):
                        x.apply(op)
                        ctx.add(transitions=1)
                    ctx.add(traces=1)
                ctx.case(['altered', job['lay'], job['pre'], o, list(w)], f)
