"""C25: spectral tensor functions: value and derivative at every symmetric matrix of an exhaustive alphabet."""
import itertools
import numpy as np
from mc import ref, apps
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (scalar function, matrix): value, derivative in every symmetric direction (forward mode), the transpose (reverse mode) and the full Jacobian, compared with matrix polynomials, '
        'the matrix exponential and its Frechet derivative, or divided differences of the positive part; non-trivial: derivative defined there')
BOUND = {'quick': 'all symmetric 3x3 matrices over {-1,0,1} and 2x2 over {-2..2}, diagonal and conjugated diagonal 3x3 matrices over {0,1,2} with gaps 1e-3..1e-16 at scales 1e-6, 1, 1e4, 1x1, 4x4 and 5x5 samples of repeated spectra; 7 functions',
         'thorough': 'all symmetric 3x3 matrices over {-2,-1,0,1,2} (15625) and 2x2 over {-4..4}, the rest as in quick with more gaps and bases'}
ASSUMPTIONS = ['functions of the size of the eigenvalues (exp is not evaluated at scales 1e-6 and 1e4)', 'the positive and negative parts are differentiated only where every eigenvalue is non-zero', 'tolerance 1e-7 relative']

FNS = ['id', 'square', 'cubic', 'exp', 'plus', 'plus2', 'degraded']


def jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for f in FNS:
        for a in ([-1, 0, 1] if q else [-2, -1, 0, 1, 2]):
            js.append(dict(fn=f, kind='all3', first=a, alphabet=[-1, 0, 1] if q else [-2, -1, 0, 1, 2]))
        js.append(dict(fn=f, kind='all2', alphabet=list(range(-2, 3)) if q else list(range(-4, 5))))
        js.append(dict(fn=f, kind='gaps', deep=not q))
        js.append(dict(fn=f, kind='sizes'))
    return js


def basis(n):
    out = []
    for i in range(n):
        for j in range(i, n):
            E = np.zeros((n, n))
            E[i, j] = E[j, i] = 1.
            out.append(E)
    return np.array(out)


def rots(n):
    out = [np.eye(n)]
    for k in range(3):
        Q, _ = np.linalg.qr(np.sin(1. + 1.7 * k + np.arange(n * n) * (1.3 + k)).reshape(n, n))
        out.append(Q)
    return out


def matrices(job):
    k = job['kind']
    if k == 'all3':
        for r in itertools.product(job['alphabet'], repeat=5):
            a, b, c, d, e, f = (job['first'],) + r
            yield [a, b, c, d, e, f], np.array([[a, d, e], [d, b, f], [e, f, c]], float), 1.
    elif k == 'all2':
        for a, b, c in itertools.product(job['alphabet'], repeat=3):
            yield [a, b, c], np.array([[a, c], [c, b]], float), 1.
    elif k == 'gaps':
        gaps = [0., 1e-3, 1e-6, 1e-9, 1e-12, 1e-14, 1e-16] + ([1e-4, 1e-5, 1e-7, 1e-8, 1e-10, 1e-13] if job['deep'] else [])
        for base in ([1, 1, 2], [1, 2, 2], [1, 1, 1], [2, 2, 2], [-1, -1, 2], [-1, 2, 2], [0, 1, 1], [0, 0, 1]):
            for g in gaps:
                for qi in range(4):
                    for s in (1., 1e-6, 1e4):
                        lam = np.array(base, float)
                        eq = [i for i in range(1, 3) if base[i] == base[i - 1]]
                        for n, i in enumerate(eq):
                            lam[i] += g * (n + 1)
                        Q = rots(3)[qi]
                        A = s * (Q * lam) @ Q.T
                        yield [base, g, qi, s], .5 * (A + A.T), s
    else:
        for n, specs in ((1, [[0], [2], [-1]]), (4, [[1, 1, 2, 2], [1, 1, 1, 2], [3] * 4, [-1, -1, 2, 2], [0, 0, 0, 1]]), (5, [[1, 1, 2, 2, 2], [0] * 5, [-2, -2, 1, 1, 1]])):
            for sp in specs:
                for qi, Q in enumerate(rots(n)):
                    A = (Q * np.array(sp, float)) @ Q.T
                    yield [n, sp, qi], .5 * (A + A.T), 1.


def oracle(fn, A, E):
    """(value, derivatives per direction or None where not differentiable)."""
    if fn == 'id':
        return A, E
    if fn == 'square':
        return A @ A, A @ E + E @ A
    if fn == 'cubic':
        A2 = A @ A
        return A2 @ A - 2. * A2 + .5 * A, A2 @ E + A @ E @ A + E @ A2 - 2. * (A @ E + E @ A) + .5 * E
    if fn == 'exp':
        import scipy.linalg as sl
        out = [sl.expm_frechet(A, e) for e in E]
        return sl.expm(A), np.array([o[1] for o in out])
    lam, Q = np.linalg.eigh(A)
    scale = max(np.abs(lam).max(), 1e-300)
    p, m = np.maximum(lam, 0.), np.minimum(lam, 0.)
    kink = np.abs(lam).min() < 1e-9 * scale or not np.any(lam)
    same = np.abs(lam[:, None] - lam[None]) < 1e-12 * scale
    pp = lam[:, None] * lam[None] > 0
    den = np.where(pp | same, 1., lam[:, None] - lam[None])
    dd = np.where(pp | same, (lam[:, None] + lam[None] > 0) * 1., (p[:, None] - p[None]) / den)  # divided differences of the positive part
    if fn == 'plus':
        f, F = p, dd
    elif fn == 'degraded':  # the stress of the phase-field example: 2 mu (g plus + minus)
        f, F = 160. * (.09 * p + m), 160. * (.09 * dd + (1. - dd))
    else:  # half the squared positive part: divided difference (p_i + p_j)/2 for equal signs
        f, F = .5 * p ** 2, np.where(pp | same, .5 * (p[:, None] + p[None]), (.5 * p[:, None] ** 2 - .5 * p[None] ** 2) / den)
        kink = False
    val = (Q * f) @ Q.T
    if kink:
        return val, None
    return val, np.array([Q @ (F * (Q.T @ e @ Q)) @ Q.T for e in E])


def run(job, ctx):
    import jax
    import jax.numpy as jnp
    eigen = apps.load(ctx, 'phase_field_fracture', 'eigen')
    plus = lambda x: .5 * (x + jnp.abs(x))
    minus = lambda x: .5 * (x - jnp.abs(x))
    fns = dict(id=lambda x: x, square=lambda x: x ** 2, cubic=lambda x: x ** 3 - 2. * x ** 2 + .5 * x, exp=jnp.exp, plus=plus,
               plus2=lambda x: .5 * plus(x) ** 2, degraded=lambda x: 160. * (.09 * plus(x) + minus(x)))
    ef = eigen.get_eigen_f_custom(fns[job['fn']])
    cases = [c for c in matrices(job) if not (job['fn'] == 'exp' and c[2] != 1.)]  # exp: see ASSUMPTIONS
    by_n = {}
    for key, A, s in cases:
        by_n.setdefault(len(A), []).append((key, A, s))
    for n, items in by_n.items():
        E = basis(n)
        W = np.array([np.sin(1. + k + np.arange(n * n)).reshape(n, n) for k in range(2)])
        X = jnp.asarray(np.array([A for _, A, _ in items]))

        def one(x):
            v = ef(x)
            d = jax.vmap(lambda e: jax.jvp(ef, (x,), (e,))[1])(jnp.asarray(E))
            J = jax.jacfwd(ef)(x)
            g = jax.vmap(lambda w: jax.vjp(ef, x)[1](w)[0])(jnp.asarray(W))
            return v, d, J, g
        out = []
        if ctx.case(['evaluate', job, n], lambda: [out.append([np.asarray(a) for a in jax.jit(jax.vmap(one))(X)]), 'ok'][1], nontrivial=False, timeout=120) is None:
            continue
        V, D, J, G = out[0]
        plain = np.asarray(ef(jnp.asarray(items[0][1])))  # eager call of the same function
        for i, (key, A, s) in enumerate(items):
            want, dwant = oracle(job['fn'], A, E)

            def f():
                if i == 0 and not ref.close(plain, V[0], 1e-10, 1e-12 * (1 + abs(s))):
                    raise CheckFail('compiled and plain evaluation differ: ' + ref.diff(V[0], plain))
                if not ref.close(V[i], want, 1e-9, 1e-11 * np.abs(A).max() + 1e-14):
                    raise CheckFail('value %s, expected %s' % (V[i].tolist(), want.tolist()))
                for what, a in (('forward derivative', D[i]), ('Jacobian', J[i]), ('reverse derivative', G[i])):
                    if not np.all(np.isfinite(a)):
                        raise CheckFail('%s is not finite at %s' % (what, A.tolist()))
                if dwant is None:
                    return 'value only'
                a, r = 1e-9, 1e-7
                if not ref.close(D[i], dwant, r, a):
                    k = int(np.abs(D[i] - dwant).reshape(len(E), -1).max(1).argmax())
                    raise CheckFail('derivative in direction %s is %s, expected %s' % (E[k].tolist(), D[i][k].tolist(), dwant[k].tolist()))
                Jw = np.einsum('ijkl,ekl->eij', J[i], E)
                if not ref.close(Jw, dwant, r, a):
                    raise CheckFail('Jacobian: ' + ref.diff(Jw, dwant))
                gw = np.einsum('wij,eij->we', W, dwant)
                gg = np.einsum('wij,eij->we', G[i], E)
                if not ref.close(gg, gw, r, a):
                    raise CheckFail('reverse derivative: ' + ref.diff(gg, gw))
                return 'norm %.4g' % np.linalg.norm(dwant)
            ctx.case([job['fn'], job['kind'], key], f, nontrivial=dwant is not None)
