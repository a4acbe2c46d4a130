"""C13: differentiable solves are independent of call history.  Space: all operation words of a given length (as windows of complete
covering sequences started on fresh problems), replayed on the real problem next to a model of the allowed parameter values."""
import copy
import itertools
import numpy as np
from mc import ref, models, grad
from mc.core import CheckFail
from mc.checks.c05 import dense

LEVEL = 'model_checking'
RULE = ('one case per trace: a covering (de Bruijn) sequence contains every operation word of the bound as a window and is replayed on fresh real problems; '
        'after every operation the observed value is compared with the reference model; non-trivial: every trace has forward, backward and plain operations')
BOUND = {'quick': 'all words of length 2 over 15 operations and of length 3 over 6 operations (1 layout), length 2 over 7 operations (coupled; with reduction matrix), length 2 over 6 operations on two interleaved problems; bistable problem: length 2 over 5 operations for 6 option styles, length 3 over 4 operations for 4 of them',
         'thorough': 'all words of length 3 over 15 operations and of length 4 over 6 operations (1 layout), length 3 over 10 operations (3 layouts), two interleaved problems length 3 over 10'}
ASSUMPTIONS = ['which parameters are current after a backward pass (those of the pass or those before it) is left open: either is accepted']
# F/G/V: forward, gradient, forward kept for a later backward, of parameter set 0/1; f/g/v: the same through a second wrapper with other options
# Bf: run (and drop) the oldest pending backward; Bl: run the newest pending backward, keep it; S: plain solve; R: residual and tangent; T: set parameters
# E: forward whose linear solver raises; D: dropped gradient computation (vjp created and discarded)
ALL = ['F0', 'F1', 'G0', 'G1', 'V0', 'V1', 'Bf', 'Bl', 'S', 'R', 'T0', 'T1', 'E1', 'g0', 'v1']
MID = ['F0', 'G1', 'V0', 'V1', 'Bf', 'Bl', 'S', 'R', 'T1', 'g0']
CORE = ['G1', 'V0', 'Bf', 'S', 'R', 'T1']
SMALL = ['F0', 'G1', 'V0', 'Bf', 'Bl', 'S', 'R']
TINY = ['G0', 'V1', 'Bf', 'S', 'T1', 'v1']


class Boom(Exception):
    pass


def de_bruijn(letters, n):
    k = len(letters)
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    s = [letters[i] for i in seq]
    return s + s[:n - 1]


def chunks(seq, n, size):
    return [seq[i:i + size + n - 1] for i in range(0, len(seq) - n + 1, size)]


def jobs(tier, seed):
    js = []

    def put(lay, pm, letters, n, size, two=False):
        for k, c in enumerate(chunks(de_bruijn(letters, n), n, size)):
            js.append(dict(lay=lay, pm=pm, trace=c, two=two, n=n))
    both = [o + '@0' for o in ['G1', 'V0', 'Bf', 'S', 'R']] + [o + '@1' for o in ['G0', 'V1', 'Bl', 'S', 'R']]
    if tier == 'quick':
        put('vector', 0, ALL, 2, 38)
        put('vector', 0, CORE, 3, 36)
        put('coupled', 0, SMALL, 2, 25)
        put('vector', 1, SMALL, 2, 25)
        put('vector', 0, ['V0@0', 'Bf@0', 'S@0', 'G0@1', 'T1@1', 'R@1'], 2, 36, two=True)
    else:
        put('vector', 0, ALL, 3, 120)
        put('vector', 0, TINY, 4, 120)
        for lay, pm in (('coupled', 0), ('vector', 1), ('tet', 0)):
            put(lay, pm, MID, 3, 100)
        put('vector', 0, both, 3, 100, two=True)
    # group traces into slices
    out = []
    key = lambda j: (j['lay'], j['pm'], j['two'])
    for _, g in itertools.groupby(sorted(js, key=lambda j: str(key(j))), key):
        g = list(g)
        m = 1 if tier == 'quick' else 3
        for i in range(0, len(g), m):
            out.append(dict(lay=g[i]['lay'], pm=g[i]['pm'], two=g[i]['two'], traces=[x['trace'] for x in g[i:i + m]]))
    for k in range(len(STYLES)):
        for d in (([2] if k < 2 else [2, 3]) if tier == 'quick' else [3] if k < 2 else [3, 4]):
            sq = de_bruijn(['F0', 'F1', 'F2', 'G1', 'S'] if d == 2 or k < 2 else ['F0', 'F1', 'G2', 'S'], d)
            m = 26 if k < 2 else 130
            out += [dict(lay='bistable', style=k, traces=[c], depth=d) for c in chunks(sq, d, m)]
    out.sort(key=lambda j: 0 if j['lay'] != 'vector' else 1)
    return out


# option styles; the first two use the default JAX backend
STYLES = [{}, {'jax_solver': {}, 'line_search_flag': True}, {'spsolve_solver': {}}, {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'ilu'}},
          {'newton': {'linear': {'spsolve_solver': {}}, 'line_search_flag': True}}, {'newton': {'linear': {'petsc_solver': {}}, 'tol': 1e-8}}]


def bistable(job, ctx):
    """A problem with several solutions: which one a call returns may depend on its own parameters and options only."""
    import jax
    import jax.numpy as jnp
    from jax_fem import solver as S
    from jax_fem.problem import Problem
    from jax_fem.generate_mesh import Mesh
    from mc import meshes
    pts, cells = meshes.mesh('QUAD4', [2, 2])

    class P(Problem):
        def get_tensor_map(self):
            return lambda g, k: 1e-2 * g

        def get_mass_map(self):
            return lambda u, x, k: u ** 3 - u + k

        def set_params(self, k):
            self.internal_vars = [k * jnp.ones((self.num_cells, self.fes[0].num_quads))]
    mk = lambda: P(Mesh(pts, cells), vec=1, dim=2, ele_type='QUAD4')
    vals = [1., .05, -.04]
    opt = STYLES[job['style']]
    adj = {'spsolve_solver': {}}

    def call(p, pred, op):
        i = int(op[1]) if len(op) > 1 else 0
        if op[0] == 'F':
            return np.asarray(pred(vals[i])[0])
        if op[0] == 'G':
            return np.asarray(jax.grad(lambda k: jnp.sum(pred(k)[0] ** 2))(vals[i]))
        p.set_params(vals[1])
        return np.asarray(S.solver(p, copy.deepcopy(opt))[0])

    def fresh(op):
        p = mk()
        return call(p, S.ad_wrapper(p, copy.deepcopy(opt), dict(adj)), op)
    want = {}

    def f():
        for op in ['F0', 'F1', 'F2', 'G1', 'G2', 'S']:
            want[op] = fresh(op)
        if max(abs(want['F0'].mean() - want[k].mean()) for k in ('F1', 'F2')) < .5:
            raise CheckFail('the problem does not reach different branches: %s' % {k: float(v.mean()) for k, v in want.items()})
        return {k: float(v.mean()) for k, v in want.items()}
    if ctx.case(['fresh', job['style']], f, timeout=200) is None:
        return
    for trace in job['traces']:
        def f():
            p = mk()
            pred = S.ad_wrapper(p, copy.deepcopy(opt), dict(adj))
            for k, op in enumerate(trace):
                got = call(p, pred, op)
                if not ref.close(got, want[op], 1e-5, 1e-5):
                    raise CheckFail('%s after %s differs from a fresh program: %s' % (op, trace[max(0, k - 4):k], ref.diff(got, want[op])))
                ctx.add(transitions=1)
            ctx.add(traces=1, states=len(set(trace)))
            return len(trace)
        ctx.case(['bistable', job['style'], trace], f, timeout=300)


class Model:
    """Reference values per parameter set."""

    def __init__(self, w):
        self.w = w
        self.prm = [w.theta(0), w.theta(1)]
        self.cot = [np.cos(1. + 2.3 * np.arange(w.r.n)), np.eye(w.r.n)[w.r.n // 2]]
        self.u, self.g = [], []
        self.state = models.state(w.r.n, 1)
        self.res, self.jac = [], []
        for p in self.prm:
            u, s = w.sensitivity(p)
            self.u.append(u)
            self.g.append([{k: np.tensordot(c, v, axes=(0, 0)) for k, v in s.items()} for c in self.cot])
            R = w.cres(self.state, p)
            J = w.jac(self.state, p)
            if w.P is not None:
                P = w.P.toarray()
                J = P.T @ J @ P
            self.res.append(R)
            self.jac.append(J)


class Run:
    """A real problem with its model state: allowed current parameters and pending backward passes."""

    def __init__(self, w, m, template):
        import jax.numpy as jnp
        from jax_fem import solver as S
        self.S, self.jnp, self.w, self.m = S, jnp, w, m
        p = copy.copy(template)
        p.fes = [copy.copy(fe) for fe in template.fes]
        for fe in p.fes:
            fe.node_inds_list, fe.vec_inds_list, fe.vals_list = list(fe.node_inds_list), list(fe.vec_inds_list), list(fe.vals_list)
        # closures made in custom_init refer to the template: bind them to the copy
        p.custom_init(w.form)
        p.internal_vars = list(template.internal_vars)
        p.internal_vars_surfaces = list(template.internal_vars_surfaces)
        self.p = p
        p.set_params(grad.jaxify(m.prm[0]))
        self.cur = {0}
        self.pend = []
        tight = dict(tol=2e-8, rel_tol=1e-13)
        self.plain = {'newton': dict(tight, linear={'spsolve_solver': {}})}
        n = w.r.n if w.P is None else w.P.shape[1]
        z = models.state(n, 2)
        guess = models.split_list(p, z) if w.P is None else z
        self.pred = [S.ad_wrapper(p, self.plain, {'spsolve_solver': {}}),
                     S.ad_wrapper(p, {'newton': dict(tight, linear={'spsolve_solver': {}}, initial_guess=guess, line_search_flag=True)}, {'petsc_solver': {'ksp_type': 'preonly', 'pc_type': 'lu'}})]

        def broken(A, b, x0, o):
            raise Boom()
        self.bad = S.ad_wrapper(p, {'newton': {'linear': {'custom_solver': broken}}})
        self.jp = [grad.jaxify(q) for q in m.prm]

    def key(self):
        return (tuple(sorted(self.cur)), tuple((a, b) for a, b, _ in self.pend))

    def check_u(self, got, i, what):
        if not ref.close(got, self.m.u[i], 1e-6, 1e-6):
            raise CheckFail('%s gives another solution than a fresh program: %s' % (what, ref.diff(got, self.m.u[i])))

    def check_g(self, g, i, c, what):
        for path, a in self.w.leaves(self.m.prm[i]):
            x = g
            for k in path:
                x = x[k]
            x = np.asarray(x)
            want = self.m.g[i][c][path]
            if x.shape != want.shape or not np.all(np.isfinite(x)) or (want.size and np.abs(x - want).max() > 1e-5 * max(1., np.abs(want).max())):
                raise CheckFail('%s: derivative with respect to %s differs from a fresh program: %s' % (what, path, ref.diff(x, want)))

    def cots(self, c):
        return [self.jnp.asarray(a) for a in models.split_list(self.p, self.m.cot[c])]

    def apply(self, op):
        import jax
        S, p, m = self.S, self.p, self.m
        kind = op[0]
        if kind in 'FfVvGg':
            i = int(op[1])
            pred = self.pred[0 if kind.isupper() else 1]
            if kind in 'Ff':
                sol = pred(self.jp[i])
                self.check_u(models.flat(sol), i, op)
            else:
                sol, vjp = jax.vjp(pred, self.jp[i])
                self.check_u(models.flat(sol), i, op)
                c = 0 if kind in 'Gg' else 1
                if kind in 'Gg':
                    self.check_g(vjp(self.cots(0))[0], i, 0, op)
                else:
                    self.pend = (self.pend + [(i, kind, vjp)])[-3:]
            self.cur = {i}
        elif kind == 'B':
            if not self.pend:
                return
            i, k, vjp = self.pend[0 if op == 'Bf' else -1]
            self.check_g(vjp(self.cots(1))[0], i, 1, '%s of pending %s%d' % (op, k, i))
            if op == 'Bf':
                self.pend = self.pend[1:]
            self.cur = self.cur | {i}
        elif kind == 'T':
            i = int(op[1])
            p.set_params(self.jp[i])
            self.cur = {i}
        elif kind == 'E':
            i = int(op[1])
            try:
                self.bad(self.jp[i])
            except Boom:
                pass
            else:
                raise CheckFail('the error of the linear solver was swallowed')
            self.cur = self.cur | {i}
        elif kind == 'S':
            got = models.flat(S.solver(p, self.plain))
            ok = [i for i in self.cur if ref.close(got, m.u[i], 1e-6, 1e-6)]
            if not ok:
                raise CheckFail('plain solve differs from a fresh program with parameters %s: %s' % (sorted(self.cur), [ref.diff(got, m.u[i]) for i in self.cur]))
            self.cur = set(ok)
        else:
            sol = [self.jnp.asarray(a) for a in models.split_list(p, m.state)]
            r1 = models.flat(p.compute_residual(sol))
            rows = np.setdiff1d(np.arange(self.w.r.n), self.w.bcdofs)
            ok = [i for i in self.cur if ref.close(r1[rows], m.res[i][rows], 1e-8, 1e-9)]
            if not ok:
                raise CheckFail('residual differs from a fresh program with parameters %s: %s' % (sorted(self.cur), [ref.diff(r1[rows], m.res[i][rows]) for i in self.cur]))
            self.cur = set(ok)
            r2 = models.flat(p.newton_update(sol))
            A = dense(S.get_A(p))
            i = min(self.cur)
            if not ref.close(r2[rows], m.res[i][rows], 1e-8, 1e-9) or not ref.close(A, m.jac[i], 1e-8, 1e-9):
                raise CheckFail('tangent update differs from a fresh program: %s; %s' % (ref.diff(r2[rows], m.res[i][rows]), ref.diff(A, m.jac[i])))


def run(job, ctx):
    if job['lay'] == 'bistable':
        return bistable(job, ctx)
    w = grad.GradWorld(job['lay'], grad.tie_last if job['pm'] else None)
    m = Model(w)
    template = w.p
    seen = set()
    for trace in job['traces']:
        def f():
            rs = [Run(w, m, template)] + ([Run(w, m, template)] if job['two'] else [])
            for k, o in enumerate(trace):
                op, which = (o.split('@') + ['0'])[:2]
                try:
                    rs[int(which)].apply(op)
                except CheckFail as e:
                    raise CheckFail('operation %d (after %s): %s' % (k, trace[max(0, k - 5):k], e))
                ctx.add(transitions=1)
                s = (op, which) + tuple(x.key() for x in rs)
                if s not in seen:
                    seen.add(s)
                    ctx.add(states=1)
            # model still bound to the implementation: final plain solve of both parameter sets
            for x in rs:
                for o in ('T0', 'S', 'T1', 'S'):
                    x.apply(o)
            ctx.add(traces=1)
            return len(trace)
        ctx.case(['trace', trace], f, timeout=300)
