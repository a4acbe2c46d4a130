"""C11: a faulty linear solver.  Space: all words of answers of a user-supplied linear solver, at every call position, forward and adjoint."""
import copy
import itertools
import numpy as np
from mc import ref, models
from mc.core import CheckFail
from mc.checks import c08
from mc.checks.c05 import dense

LEVEL = 'exploration'
RULE = ('one case per word of answers (then exact answers): every system handed to the solver is compared with the reference tangent, residual and boundary increment at the tracked iterate, '
        'a returned state with the reference stopping rule; non-trivial: a word with at least one answer that is not exact')
BOUND = {'quick': 'forward: all words of length <= 2 over 10 answers (2 problems) and of length 3 over 5 answers, length <= 2 with line search and loose tolerances; all pairs of 4 boundary data sets on one problem; adjoint: all 12 answers x 2 outputs, then reuse',
         'thorough': 'forward: all words of length <= 4 on the vector problem (<= 3 on 3 others), length <= 3 with line search and loose tolerances; adjoint: all words of 2 out of 12 answers x 4 outputs'}
ASSUMPTIONS = ['a solve that has not finished after 60 linear solves is counted as still iterating (not as returned)']
LETTERS = 'EHZNSGCBXW'  # exact half zero negated scaled garbage constrained-only-wrong nan(Bad) scribble re-enter
FATAL = 'IR'  # infinite entries, raises


class Boom(Exception):
    pass


class GaveUp(Exception):
    pass


def words(n, letters):
    for k in range(1, n + 1):
        for w in itertools.product(letters, repeat=k):
            yield ''.join(w)


def jobs(tier, seed):
    js = []
    q = tier == 'quick'
    for lay in (['vector', 'coupled'] if q else ['vector', 'coupled', 'tet', 'three']):
        d = 2 if q else 4 if lay == 'vector' else 3
        for a in LETTERS:
            if d < 3:
                js.append(dict(kind='fwd', lay=lay, pre=[a], depth=d, ls=False, tol={}))
            else:
                for h in (LETTERS[:5], LETTERS[5:]):
                    js.append(dict(kind='fwd', lay=lay, pre=[a + b for b in h], depth=d, ls=False, tol={}))
        if q and lay == 'vector':
            for a in 'EZGCX':
                js.append(dict(kind='fwd', lay=lay, pre=[a + b for b in 'EZGCX'], depth=3, ls=False, tol={}, letters='EZGCX', exact=3))
        d = 2 if q else 3
        for ls, tol in ((True, {}), (False, {'tol': 1e-2}), (True, {'tol': 1e-30, 'rel_tol': 1e-3}))[:1 if q and lay == 'coupled' else 3]:
            js += [dict(kind='fwd', lay=lay, pre=list(h), depth=d, ls=ls, tol=tol) for h in (LETTERS[:5], LETTERS[5:])]
        js.append(dict(kind='fatal', lay=lay))
        js += [dict(kind='adjoint', lay=lay, depth=1 if q else 2, outs=[o]) for o in ((0, 3) if q else range(4))]
    for lay in (['vector', 'coupled'] if q else ['vector', 'coupled', 'tet', 'three']):
        js += [dict(kind='rebind', lay=lay, first=a, depth=2 if q else 3, words=['E', 'Z'] if q else ['E', 'Z', 'H', 'G']) for a in range(4)]
    js.sort(key=lambda j: 0 if j['kind'] == 'adjoint' else 1)
    return js


class World:
    def __init__(self, lay):
        self.cls = models.make_problem_class()
        self.form, self.mm, self.r, self.sets = c08.make(lay, self.cls)
        self.p = models.build(self.cls, self.form, self.mm)
        c08.put_bc(self.p, self.sets[0])
        self.bc = self.sets[0][1]
        self.map = ref.RefModel.bc_map(self.bc)
        self.iv = models.ref_ivs(self.form, self.r)
        self.start = self.r.newton(self.bc, *self.iv) + .15 * models.state(self.r.n, 1)
        self._jac = {}

    def rebind(self, k):
        """Boundary data k of the menu: 0/1 the two sets, 2/3 the same nodes with other values."""
        nb, fb = self.sets[k % 2]
        if k > 1:
            nb = [(n, c, [-.7 * x + .2 for x in v]) for n, c, v in nb]
            fb = [(d, -.7 * x + .2) for d, x in fb]
        c08.put_bc(self.p, (nb, fb))
        self.bc = fb
        self.map = ref.RefModel.bc_map(fb)

    def res(self, u):
        return self.r.imposed(u, self.bc, *self.iv)

    def jac(self, u):
        k = u.tobytes() + bytes(str(sorted(self.map)), 'ascii')
        if k not in self._jac:
            if len(self._jac) > 3000:
                self._jac.clear()
            self._jac[k] = self.r.imposed_jacobian(u, self.bc, *self.iv)
        return self._jac[k]


def answer(w, letter, A, b, D):
    n = len(b)
    if not np.all(np.isfinite(D)) or not np.all(np.isfinite(b)):
        return np.full(n, np.nan)
    e = np.linalg.solve(D, b)
    if letter == 'H':
        return .5 * e
    if letter == 'Z':
        return 0. * e
    if letter == 'N':
        return -e
    if letter == 'S':
        return 3. * e
    if letter == 'G':
        return .4 * np.cos(1. + 3. * np.arange(n))
    if letter == 'C':
        e = e.copy()
        e[sorted(w.map)] += .25
        return e
    if letter == 'B':
        e = e.copy()
        e[n // 2] = np.nan
        return e
    if letter == 'I':
        e = e.copy()
        e[0] = np.inf
        return e
    if letter == 'X':
        A.zeroEntries()
        A.assemble()
        return e
    if letter == 'W':
        w.p.newton_update(models.split_list(w.p, 2. + 0. * e))
        return e
    return e


def forward(w, word, ls, tol, ctx, flat):
    import jax.numpy as jnp
    from jax_fem.solver import solver
    st = dict(u=w.start.copy(), k=0, inc=None)

    def custom(A, b, x0, opts):
        D = dense(A)
        bb, x = np.asarray(b), np.asarray(x0)
        st['k'] += 1
        if st['k'] > 60:
            raise GaveUp()
        if st['inc'] is not None:
            cand = [st['u'] + a * st['inc'] for a in ((1., .5, .25, .125) if ls else (1.,))]
            if np.all(np.isfinite(cand[0])):
                ok = [c for c in cand if ref.close(-bb, w.res(c), 1e-7, 1e-8)]
                if not ok:
                    raise CheckFail('call %d: the right-hand side is not the negated imposed residual of the updated state: %s' % (st['k'], ref.diff(-bb, w.res(cand[0]))))
                st['u'] = ok[0]
            else:
                st['u'] = cand[0]
        elif not ref.close(-bb, w.res(st['u']), 1e-9, 1e-10):
            raise CheckFail('first right-hand side is not the negated residual at the initial guess: %s' % ref.diff(-bb, w.res(st['u'])))
        u = st['u']
        if np.all(np.isfinite(u)):
            if st['k'] <= len(word) + 1:
                J = w.jac(u)
                if not ref.close(D, J, 1e-7, 1e-8):
                    raise CheckFail('call %d: the matrix is not the current tangent: %s' % (st['k'], ref.diff(D, J)))
            want = np.array([w.map[d] - u[d] for d in sorted(w.map)])
            if not ref.close(x[sorted(w.map)], want, 1e-9, 1e-10):
                raise CheckFail('call %d: the start vector misses the boundary increments: %s' % (st['k'], ref.diff(x[sorted(w.map)], want)))
            free = np.delete(x, sorted(w.map))
            if not np.all(np.isfinite(free)):
                raise CheckFail('start vector is not finite')
        if opts.get('custom_solver') is not custom:
            raise CheckFail('the options handed to the solver are not the linear options of the caller: %s' % (opts,))
        letter = word[st['k'] - 1] if st['k'] <= len(word) else 'E'
        if letter == 'R':
            raise Boom()
        out = answer(w, letter, A, bb, D)
        st['inc'] = out
        if (st['k'] + len(word)) % 2:
            return jnp.asarray(out)
        return np.array(out)
    o = dict(tol, line_search_flag=ls, initial_guess=models.split_list(w.p, w.start.copy()))
    o = dict(o, custom_solver=custom) if flat else {'newton': dict(o, linear={'custom_solver': custom, 'mark': 3})}
    try:
        sol = models.flat(solver(w.p, o))
    except AssertionError:
        ctx.outcome('raised')
        if not set(word[:st['k']]) - set('EXW'):
            raise CheckFail('the solver stopped although every answer was exact')
        return 'raised'
    except Boom:
        ctx.outcome('error of the linear solver passed on')
        return 'boom'
    except GaveUp:
        ctx.outcome('still iterating')
        return 'iterating'
    if 'R' in word[:st['k']]:
        raise CheckFail('the error of the linear solver was swallowed')
    if not np.all(np.isfinite(sol)):
        raise CheckFail('a non-finite solution was returned')
    R, R0 = np.linalg.norm(w.res(sol)), np.linalg.norm(w.res(w.start))
    t, rt = tol.get('tol', 1e-6), tol.get('rel_tol', 1e-8)
    if not (R <= t * (1 + 1e-6) + 1e-11 or R <= rt * R0 * (1 + 1e-6) + 1e-11):
        raise CheckFail('returned after %d linear solves with residual %g (initial %g, tol %g, rel_tol %g)' % (st['k'], R, R0, t, rt))
    ctx.outcome('returned')
    return '%d solves, residual %.1e' % (st['k'], R)


def run(job, ctx):
    w = World(job['lay'])
    if job['kind'] == 'fwd':
        ws = []
        for p in job['pre']:
            for k in range(0, job['depth'] - len(p) + 1):
                ws += [p + ''.join(t) for t in itertools.product(job.get('letters', LETTERS), repeat=k)]
        if 'exact' in job:
            ws = [x for x in ws if len(x) == job['exact']]
        elif job['pre'][0] == 'EE':
            ws = list(LETTERS) + ws
        for n, word in enumerate(ws):
            ctx.case(['fwd', job['ls'], sorted(job['tol'].items()), word],
                     lambda: forward(w, word, job['ls'], job['tol'], ctx, n % 2 == 1), nontrivial=set(word) != {'E'})
        return
    if job['kind'] == 'fatal':
        for ls in (False, True):
            for word in ['I', 'EI', 'EEI', 'HI', 'R', 'ER', 'EER', 'GR', 'BR', 'B', 'EB', 'EEB', 'IB', 'ZR', 'IE']:
                def f():
                    out = forward(w, word, ls, {'tol': 1e-12, 'rel_tol': 1e-30}, ctx, False)
                    if out not in ('raised', 'boom'):
                        raise CheckFail('no error although the linear solver failed in %s: %s' % (word, out))
                    # the problem stays usable
                    return forward(w, '', ls, {}, ctx, True)
                ctx.case(['fatal', ls, word], f)
        return
    if job['kind'] == 'rebind':
        # boundary data replaced between solves of one problem
        for seq in itertools.product(range(4), repeat=job['depth'] - 1):
            for word in job['words']:
                def f():
                    for k in [job['first']] + list(seq):
                        w.rebind(k)
                        forward(w, word, False, {}, ctx, k % 2 == 1)
                    return 'held'
                ctx.case(['rebind', job['first'], list(seq), word], f, nontrivial=set(seq) != {job['first']})
        return
    adjoint(w, job, ctx)


def adjoint(w, job, ctx):
    import jax
    import jax.numpy as jnp
    from jax_fem import solver as S
    p, r = w.p, w.r
    iv0 = np.asarray(p.internal_vars[0])
    siv = [[jnp.asarray(a) for a in s] for s in p.internal_vars_surfaces]
    params = {'iv': [jnp.asarray(1.2 * iv0)], 'siv': siv}
    iv = [1.2 * w.iv[0][0]]
    u = r.newton(w.bc, iv, w.iv[1])
    J = r.imposed_jacobian(u, w.bc, iv, w.iv[1])
    bcd = sorted(w.map)

    def dres(lam):
        """lam . d(imposed residual)/d(iv) for every quadrature value."""
        l = lam.copy()
        l[bcd] = 0.
        out = np.zeros(iv0.size)
        for k in range(iv0.size):
            v = iv[0].astype(complex)
            v.reshape(-1)[k] += 1e-30j
            out[k] = l @ (r.residual(u, [v], w.iv[1]).imag / 1e-30)
        return out.reshape(iv0.shape)
    dtab = np.zeros((r.n, iv0.size))
    for k in range(iv0.size):
        v = iv[0].astype(complex)
        v.reshape(-1)[k] += 1e-30j
        dtab[:, k] = r.residual(u, [v], w.iv[1]).imag / 1e-30
    dtab[bcd] = 0.
    for out in job['outs']:
        v = np.zeros(r.n)
        v[(out * 5) % r.n] = 1.
        if out == 3:
            v = np.cos(np.arange(r.n))
        for word in itertools.product(LETTERS + 'IR', repeat=job['depth']):
            def f():
                log = []

                def custom(A, b, x0, opts):
                    D = dense(A)
                    if not ref.close(D, J.T, 1e-6, 1e-7):
                        raise CheckFail('the adjoint matrix is not the transposed tangent: %s' % ref.diff(D, J.T))
                    if not ref.close(np.asarray(b), v, 1e-12, 1e-13):
                        raise CheckFail('the adjoint right-hand side is not the cotangent')
                    k = len(log)
                    letter = word[k] if k < len(word) else 'E'
                    if letter == 'R':
                        log.append(None)
                        raise Boom()
                    a = answer(w, letter, A, np.asarray(b), D)
                    log.append(a)
                    return jnp.asarray(a)
                pred = S.ad_wrapper(p, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-10, 'rel_tol': 1e-14}}, {'custom_solver': custom})
                sol, vjp = jax.vjp(pred, params)
                before = models.flat(sol).copy()
                cot = [jnp.asarray(a) for a in models.split_list(p, v)]
                for k in range(len(word) + 1):
                    try:
                        g, = vjp(cot)
                    except Boom:
                        if word[k] != 'R':
                            raise
                        g = None
                    if k < len(word) and word[k] == 'R' and g is not None:
                        raise CheckFail('the error of the adjoint solver was swallowed')
                    if not np.array_equal(models.flat(sol), before) or not ref.close(before, u, 1e-7, 1e-8):
                        raise CheckFail('the stored solution changed')
                    if g is not None and np.all(np.isfinite(log[k])):
                        want = -(log[k] @ dtab).reshape(iv0.shape)
                        if not ref.close(np.asarray(g['iv'][0]), want, 1e-6, 1e-7):
                            raise CheckFail('gradient is not minus the adjoint vector times the parameter derivative (answer %s): %s' % (word[k] if k < len(word) else 'E', ref.diff(np.asarray(g['iv'][0]), want)))
                    # the problem: a plain solve gives the same solution as before
                    again = models.flat(S.solver(p, {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-10, 'rel_tol': 1e-14}}))
                    if not ref.close(again, u, 1e-7, 1e-8):
                        raise CheckFail('after the faulty adjoint solve (%s) the problem has another solution: %s' % (word, ref.diff(again, u)))
                ctx.outcome('adjoint')
                return len(log)
            ctx.case(['adjoint', out, ''.join(word)], f, nontrivial=set(word) != {'E'})
