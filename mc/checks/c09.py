"""C09: linear backends.  Space: all small integer systems and finite-element tangents x backends x options x right-hand sides x start vectors."""
import itertools
import numpy as np
from mc import ref, meshes, models
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (matrix, backend with options); inside it every right-hand side and start vector of the menu; an answer must have a '
        'relative residual within the accuracy of the backend or an exception must be raised; non-trivial: the matrix is not diagonal')
BOUND = {'quick': 'all 2x2 integer matrices with entries -1..2 and |det|>=1, 8 finite-element systems and their transposes, AMGX stand-in: 6 answer qualities x 12 inputs and every fault point; 5 ill-conditioned or strongly nonsymmetric systems with right-hand sides of magnitude 1e-3 to 1e6, 9 Krylov methods x 6 preconditioners, 3 right-hand sides of 2 magnitudes and one of 1e-12',
         'thorough': 'additionally all 3x3 matrices with entries 0..1 plus 2 on the diagonal or an off-diagonal shift, all PETSc pairs on all matrices'}
ASSUMPTIONS = ['symmetric Krylov methods are only asked for symmetric positive definite systems; 1e-3 relative residual counts as the accuracy of an iterative backend (1e-7 for the JAX backend on finite-element systems; for the ill-conditioned systems, where only the preconditioned residual is controlled: an absolute error of 0.1 or 11%)',
               'MUMPS and Hypre are not installed; AMGX is driven through a stand-in for its Python interface']
KSP = ['bcgsl', 'gmres', 'fgmres', 'bcgs', 'bicg', 'cgs', 'gcr', 'lgmres', 'tfqmr']
SYM = ['cg', 'minres']
PC = ['none', 'jacobi', 'ilu', 'lu', 'sor', 'bjacobi']
ILL = ['lap2', 'lap3', 'conv', 'graded', 'arrow']
FE = ['vector', 'vector-sym', 'coupled', 'hex', 'tri', 'reduced', 'vector-T', 'coupled-T']
INT2 = [m for m in itertools.product([-1, 0, 1, 2], repeat=4) if abs(m[0] * m[3] - m[1] * m[2]) >= 1]
INT3 = [m for m in itertools.product([0, 1], repeat=9)]


def jobs(tier, seed):
    js = []
    for c in range(8):
        js.append(dict(kind='int2', part=c, of=8, back='direct'))
        js.append(dict(kind='int2', part=c, of=8, back='jax'))
    for c in range(4):
        js.append(dict(kind='int2', part=c, of=4, back='petsc', full=tier == 'thorough'))
    for s in FE:
        js.append(dict(kind='fe', sys=s, back='petsc'))
        js.append(dict(kind='fe', sys=s, back='jax'))
    for s in ILL:
        js += [dict(kind='ill', sys=s, back=b) for b in ('petsc', 'jax')]
    js.append(dict(kind='refuse'))
    js += [dict(kind='amgx', part=k) for k in range(4)]
    if tier == 'thorough':
        for c in range(16):
            js += [dict(kind='int3', part=c, of=16, back=b, full=False) for b in ('direct', 'petsc', 'jax')]
    js.sort(key=lambda j: 0 if j.get('back') == 'jax' else 1)
    return js


def mat(M):
    from petsc4py import PETSc
    n, m = M.shape
    j = np.tile(np.arange(m), n).astype(PETSc.IntType)
    return PETSc.Mat().createAIJ(size=(n, m), csr=((np.arange(n + 1) * m).astype(PETSc.IntType), j, M.reshape(-1).astype(float)))


def options(back, full=True):
    """(label, options, accuracy, must answer on well-conditioned diagonally dominant systems, symmetric only)"""
    out = []
    if back in ('direct', 'all'):
        out.append((['spsolve'], {'spsolve_solver': {}}, 1e-9, True, False))
    if back in ('jax', 'all'):
        for pre, o in ((True, {'jax_solver': {}}), (False, {'jax_solver': {'precond': False}}), (True, {'jax_solver': {'precond': True}}), (True, {})):
            if not full and o in ({}, {'jax_solver': {'precond': True}}):
                continue
            out.append((['jax', str(o)], o, 1e-3, False, False))
    if back in ('petsc', 'all'):
        out.append((['petsc', 'default'], {'petsc_solver': {}}, 1e-3, False, False))
        for k in KSP + SYM:
            for pc in PC:
                if k == 'tfqmr' and pc in ('lu', 'ilu'):
                    continue  # routed to MUMPS by the code; not installed
                out.append((['petsc', k, pc], {'petsc_solver': {'ksp_type': k, 'pc_type': pc}}, 1e-3, k in ('gmres', 'fgmres') and pc in ('none', 'jacobi', 'lu'), k in SYM))
        out.append((['petsc', 'preonly', 'lu'], {'petsc_solver': {'ksp_type': 'preonly', 'pc_type': 'lu'}}, 1e-8, True, False))
        out.append((['petsc', 'ksp only'], {'petsc_solver': {'ksp_type': 'gmres'}}, 1e-3, False, False))
        out.append((['petsc', 'pc only'], {'petsc_solver': {'pc_type': 'jacobi'}}, 1e-3, False, False))
    return out


def attempt(ctx, M, A, label, opt, acc, must, bs, x0s):
    import copy
    import jax.numpy as jnp
    from jax_fem.solver import linear_solver
    vals = A.getValuesCSR()[2].copy()
    n = len(M)
    for (bn, b), (xn, x0) in itertools.product(bs, x0s):
        o = copy.deepcopy(opt)
        jb = jnp.asarray(b)
        jx = None if x0 is None else jnp.asarray(x0)
        try:
            x = np.asarray(linear_solver(A, jb, jx, o))
        except Exception as e:
            ctx.outcome(label[0] + ' raised ' + type(e).__name__)
            if must:
                raise CheckFail('%s raised %s for a well-posed system, rhs %s: %s' % (label, type(e).__name__, bn, str(e)[:200]))
            x = None
        if x is not None:
            ctx.outcome(label[0] + ' answered')
            if x.dtype != np.float64 or x.shape != (n,) or not np.all(np.isfinite(x)):
                raise CheckFail('%s, rhs %s: answer of shape %s and type %s not finite or not a real vector: %s' % (label, bn, x.shape, x.dtype, x[:6]))
            err = np.linalg.norm(M @ x - b)
            if not err <= (acc * np.linalg.norm(b) + 1e-14 * np.linalg.norm(x) * np.abs(M).max() if np.any(b) else 2e-8):
                raise CheckFail('%s, rhs %s, start %s: residual %.3g for a right-hand side of norm %.3g' % (label, bn, xn, err, np.linalg.norm(b)))
        if not np.array_equal(A.getValuesCSR()[2], vals) or A.getSize() != (n, n):
            raise CheckFail('%s changed the matrix' % label)
        if not np.array_equal(np.asarray(jb), b) or (x0 is not None and not np.array_equal(np.asarray(jx), x0)):
            raise CheckFail('%s changed its vector arguments' % label)
        if o != opt:
            raise CheckFail('%s changed the options to %s' % (label, o))


def fe_system(name):
    import scipy.sparse
    from jax_fem.solver import get_A
    from mc.checks import c08
    from mc.checks.c05 import dense
    cls = models.make_problem_class()
    lay = {'vector': 'vector', 'vector-sym': 'vector', 'vector-T': 'vector', 'coupled': 'coupled', 'coupled-T': 'coupled', 'hex': 'scalar3', 'tri': 'tri6', 'reduced': 'vector'}[name]
    form, mm, r, sets = c08.make(lay, cls)
    p = models.build(cls, form, mm)
    if name != 'vector-sym':
        c08.put_bc(p, sets[0])
    if name == 'reduced':
        P = np.zeros((r.n, r.n - 2))
        P[:r.n - 2] = np.eye(r.n - 2)
        P[r.n - 2, 2], P[r.n - 1, 3] = 1., .5
        p.P_mat = scipy.sparse.csr_array(P)
    p.newton_update(models.split_list(p, np.zeros(r.n) if name == 'vector-sym' else models.state(r.n, 1)))
    A = get_A(p)
    if name.endswith('-T'):
        from petsc4py import PETSc
        B = PETSc.Mat()
        A.transpose(B)
        A = B
    return dense(A), A


def ill(name):
    n = 60 if name.startswith('lap') else 24
    T = 2. * np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
    if name == 'lap2':
        M = T @ T
    elif name == 'lap3':
        M = T @ T @ T
    elif name == 'conv':
        M = T + 12. * (np.eye(n) - np.eye(n, k=-1)) - .5 * np.eye(n, k=1)
    elif name == 'graded':
        d = 10. ** (-3. * np.arange(n) / n)
        M = (T + .1 * np.eye(n)) * d[:, None]
    else:
        M = np.eye(n) * np.linspace(1., 9., n)
        M[0, 1:], M[1:, 0] = 1., -1.
    return M, mat(M)


class FakeAMGX:
    """Stand-in for the pyamgx library (not installable here): same interface, records uploads and destruction, fails at call number `fault`."""

    def __init__(self, mode='exact', fault=None):
        self.mode, self.fault, self.calls, self.live, self.log = mode, fault, 0, [], []
        lib = self

        class Obj:
            made = False

            def _do(self, name, create=False):
                k, lib.calls = lib.calls, lib.calls + 1
                lib.log.append(type(self).__name__ + '.' + name)
                if lib.fault == k:
                    raise RuntimeError('amgx fault at ' + name)
                if create:
                    self.made = True
                    lib.live.append(self)

            def destroy(self):
                if self not in lib.live:
                    lib.log.append('double destroy')
                    return
                if type(self).__name__ in ('Config', 'Resources') and any(type(o).__name__ not in ('Config', 'Resources') for o in lib.live):
                    lib.log.append('destroyed before its users')
                lib.live.remove(self)

        class Config(Obj):
            def create_from_file(self, path):
                self._do('create_from_file', True)
                self.src = path
                lib.cfg = path
                return self

            def create_from_dict(self, d):
                self._do('create_from_dict', True)
                lib.cfg = d
                return self

        class Resources(Obj):
            def create_simple(self, cfg):
                self._do('create_simple', True)
                return self

        class Solver(Obj):
            def create(self, res, cfg, mode='dDDI'):
                self._do('create', True)
                return self

            def setup(self, A):
                self._do('setup')
                self.A = A.csr

            def solve(self, b, x, zero_initial_guess=False):
                self._do('solve')
                e = np.linalg.solve(self.A.toarray(), b.v)
                lib.start = x.v.copy()
                x.v = {'exact': e, 'nan': e * np.nan, 'guess': x.v, 'half': .5 * e, 'last': np.concatenate([e[:-1], [e[-1] + 1. + abs(e[-1])]]), 'loose': e * (1. + 1e-6)}[lib.mode]
                self.status = 'success' if lib.mode == 'exact' else 'failed'

        class Matrix(Obj):
            def create(self, res, mode='dDDI'):
                self._do('create', True)
                return self

            def upload_CSR(self, csr):
                self._do('upload_CSR')
                self.csr = csr.copy()

        class Vector(Obj):
            def create(self, res, mode='dDDI'):
                self._do('create', True)
                return self

            def upload(self, v):
                self._do('upload')
                self.v = np.array(v, float)

            def download(self):
                self._do('download')
                return self.v.copy()
        self.Config, self.Resources, self.Solver, self.Matrix, self.Vector = Config, Resources, Solver, Matrix, Vector


def amgx(job, ctx):
    """Every fault point and every quality of answer of the AMGX library, on a stand-in."""
    import jax.numpy as jnp
    from jax_fem import solver as S
    if getattr(S, 'PYAMGX_AVAILABLE', False):
        return
    systems = [np.array([[2., 1.], [0., 3.]]), ill('conv')[0][:7, :7], np.diag([1., 2., 4.]) + np.eye(3, k=1), 3. * np.eye(4) - np.eye(4, k=-2)]
    M = systems[job['part']]
    n = len(M)
    A = mat(M)

    def go(mode, fault, b, x0, cfg):
        lib = FakeAMGX(mode, fault)
        S.pyamgx, S.PYAMGX_AVAILABLE = lib, True
        try:
            o = {'amgx_solver': {} if cfg is None else {'cfg_path': cfg}}
            try:
                x = np.asarray(S.linear_solver(A, jnp.asarray(b), None if x0 is None else jnp.asarray(x0), o))
            except Exception as e:
                x = e
        finally:
            S.PYAMGX_AVAILABLE = False
            del S.pyamgx
        if lib.live or 'double destroy' in lib.log or 'destroyed before its users' in lib.log:
            raise CheckFail('library objects not released properly: %s still alive, log %s' % ([type(o).__name__ for o in lib.live], lib.log))
        if (cfg is not None and lib.calls > 1 and lib.cfg != cfg) or (cfg is None and lib.calls > 1 and not isinstance(lib.cfg, dict)):
            raise CheckFail('configuration used: %r' % (lib.cfg,))
        return lib, x
    bs = [('b', np.arange(1., n + 1)), ('small', 1e-3 * np.arange(1., n + 1)[::-1]), ('large', 1e4 * np.cos(np.arange(n)))]
    for (bn, b), x0, cfg in itertools.product(bs, (None, .3 + np.arange(n)), (None, 'some.json')):
        for mode in ('exact', 'nan', 'guess', 'half', 'last', 'loose'):
            def f():
                lib, x = go(mode, None, b, x0, cfg)
                if isinstance(x, Exception):
                    if mode == 'exact':
                        raise CheckFail('raised %r although the library solved the system' % (x,))
                    return 'raised'
                if not np.array_equal(lib.start, np.zeros(n) if x0 is None else x0):
                    raise CheckFail('start vector %s uploaded as %s' % (x0, lib.start))
                err = np.linalg.norm(M @ x - b)
                if x.shape != (n,) or not err <= .11 * np.linalg.norm(b):
                    raise CheckFail('answer with residual %g for a right-hand side of norm %g returned silently' % (err, np.linalg.norm(b)))
                return 'answered'
            ctx.case(['amgx', bn, x0 is None, cfg, mode], f)
    calls = []

    def f():
        lib, x = go('exact', None, bs[0][1], None, None)
        calls.append(lib.calls)
        return lib.log
    ctx.case(['amgx', 'calls'], f)
    for k in range(calls[0] if calls else 0):
        for cfg in (None, 'some.json'):
            def f():
                lib, x = go('exact', k, bs[0][1], None, cfg)
                if not isinstance(x, Exception):
                    raise CheckFail('fault of the library at call %d (%s) was swallowed' % (k, lib.log[k]))
                lib, x = go('exact', None, bs[0][1], None, cfg)
                if isinstance(x, Exception) or not np.linalg.norm(M @ x - bs[0][1]) <= 1e-8:
                    raise CheckFail('no correct answer after a fault')
                return 'raised'
            ctx.case(['amgx fault', k, cfg], f)


def rhs_menu(n):
    s = models.state(n, 1)
    return [('irregular', s), ('unit', np.eye(n)[0]), ('last', np.eye(n)[n - 1]), ('small', 1e-3 * models.state(n, 2)), ('tiny unit', 1e-4 * np.eye(n)[n // 2]), ('nano', 1e-12 * models.state(n, 3)), ('zero', np.zeros(n))]


def run(job, ctx):
    if job['kind'] == 'refuse':
        return refuse(ctx)
    if job['kind'] == 'amgx':
        return amgx(job, ctx)
    if job['kind'] in ('int2', 'int3'):
        n = int(job['kind'][-1])
        ms = []
        for k, m in enumerate(INT2 if n == 2 else INT3):
            M = np.array(m, float).reshape(n, n)
            if n == 3:
                M = M + 2. * (np.eye(3) if k % 2 else np.roll(np.eye(3), 1, axis=0))
                if abs(np.linalg.det(M)) < .9:
                    continue
            ms.append(M)
        for M in ms[job['part']::job['of']]:
            A = mat(M)
            spd = np.array_equal(M, M.T) and np.linalg.eigvalsh(M).min() > 0
            for label, opt, acc, must, sym in options(job['back'], job.get('full', True)):
                if sym and not spd:
                    continue
                if job['back'] == 'petsc' and not job.get('full') and label[1] not in ('default', 'gmres', 'bcgsl', 'bcgs', 'cg', 'preonly'):
                    continue
                bs = [('b', np.arange(1., n + 1)), ('small', .01 * np.arange(1., n + 1)[::-1]), ('e0', 1e-3 * np.eye(n)[0])]
                if job['back'] == 'jax':
                    if opt not in ({'jax_solver': {}}, {'jax_solver': {'precond': False}}):
                        continue
                    bs = [bs[1], ('nano', 1e-12 * bs[0][1])]
                x0s = [('none', None)]
                dd = spd and np.all(2 * np.abs(np.diag(M)) > np.abs(M).sum(1))
                ctx.case([M.tolist(), label], lambda: attempt(ctx, M, A, label, opt, acc, must and (label[0] == 'spsolve' or dd), bs, x0s), nontrivial=np.count_nonzero(M - np.diag(np.diag(M))) > 0)
        return
    if job['kind'] == 'ill':
        M, A = ill(job['sys'])
        n = len(M)
        b = models.state(n, 1) + 2. * np.eye(n)[0] - 3. * np.eye(n)[n - 1]
        bs = [('x%g' % s, s * b) for s in (1e-3, 1., 1e6)] + [('ends', 1e6 * (np.eye(n)[0] - 2. * np.eye(n)[n - 1] + .3 * np.eye(n)[5]))]
        spd = np.array_equal(M, M.T) and np.linalg.eigvalsh(M).min() > 0
        for label, opt, acc, must, sym in (options('direct') + options('petsc') if job['back'] == 'petsc' else options('jax')):
            if sym and not spd:
                continue
            must = label[0] == 'spsolve' or label[-1] == 'lu' and must
            for b in (bs[1:] if job['back'] == 'jax' else bs):
                it = .11 if np.linalg.norm(b[1]) < 1 else 2e-2 if np.linalg.norm(b[1]) < 1e3 else 1e-3
                ctx.case(['ill', job['sys'], label, b[0]], lambda: attempt(ctx, M, A, label, opt, it if acc == 1e-3 else acc, must, [b], [('none', None)]))
        return
    M, A = fe_system(job['sys'])
    n = len(M)
    spd = np.abs(M - M.T).max() < 1e-12 and np.linalg.eigvalsh(M).min() > 1e-8
    if job['back'] == 'petsc':
        for label, opt, acc, must, sym in options('direct') + options('petsc'):
            if sym and not spd:
                continue
            ctx.case(['fe', job['sys'], label], lambda: attempt(ctx, M, A, label, opt, acc, must, rhs_menu(n), [('none', None)]))
    else:
        b0 = rhs_menu(n)[0][1]
        near = np.linalg.solve(M, b0 + 3e-4 * np.linalg.norm(b0) * np.cos(np.arange(n)) / np.sqrt(n))  # almost a solution
        for label, opt, acc, must, sym in options('jax'):
            ctx.case(['fe', job['sys'], label], lambda: attempt(ctx, M, A, label, opt, 1e-7, True, [rhs_menu(n)[0]],
                     [('none', None), ('zero', np.zeros(n)), ('irregular', models.state(n, 3)), ('near', near)]))
            ctx.case(['fe', job['sys'], label, 'more'], lambda: attempt(ctx, M, A, label, opt, acc, False, rhs_menu(n)[1:], [('none', None)]))
        x0s = [('zero', np.zeros(n)), ('irregular', models.state(n, 3))]
        for label, opt, acc, must, sym in options('direct') + options('petsc')[:3]:
            ctx.case(['fe', job['sys'], label, 'start'], lambda: attempt(ctx, M, A, label, opt, acc, must, rhs_menu(n)[:1], x0s))


def refuse(ctx):
    import jax.numpy as jnp
    from jax_fem import solver as S
    M = np.array([[2., 1.], [0., 3.]])
    b = np.array([1., 2.])
    for cfg in ({}, {'cfg_path': None}, {'cfg_path': 'nowhere.json'}):
        for x0 in (None, np.zeros(2)):
            def f():
                if S.PYAMGX_AVAILABLE:
                    return 'installed'
                try:
                    S.linear_solver(mat(M), jnp.asarray(b), x0, {'amgx_solver': dict(cfg)})
                except RuntimeError:
                    return 'refused'
                raise CheckFail('AMGX backend answered without its library')
            ctx.case(['amgx', cfg, x0 is None], f)
    for k in ({'ksp_type': 'no_such_method'}, {'pc_type': 'no_such_pc'}, {'ksp_type': 'gmres', 'pc_type': 'hypre'}, {'ksp_type': 'tfqmr', 'pc_type': 'lu'}):
        def f():
            try:
                x = np.asarray(S.linear_solver(mat(M), jnp.asarray(b), None, {'petsc_solver': dict(k)}))
            except Exception:
                return 'refused'
            if not np.linalg.norm(M @ x - b) <= 1e-3 * np.linalg.norm(b):
                raise CheckFail('wrong answer for %s' % k)
            return 'answered correctly'
        ctx.case(['petsc', k], f)
    for x0 in (None, np.array([7., 8.])):
        def f():
            seen = []
            A = mat(M)

            def custom(A_, b_, x0_, o_):
                seen.append((A_, np.asarray(b_), x0_, o_))
                return jnp.asarray([5., 6.])
            o = {'custom_solver': custom, 'extra': 3}
            x = S.linear_solver(A, jnp.asarray(b), x0, o)
            if len(seen) != 1 or seen[0][0] is not A or not np.array_equal(seen[0][1], b) or seen[0][2] is not x0 or seen[0][3].get('extra') != 3:
                raise CheckFail('custom solver called with other arguments: %s' % (seen,))
            if not np.array_equal(np.asarray(x), [5., 6.]):
                raise CheckFail('answer of the custom solver altered')
        ctx.case(['custom', x0 is None], f)
