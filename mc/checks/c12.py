"""C12: gradients through a solve.  Space: layouts x parameter routes x outputs x adjoint backends x forward options x reduction matrices."""
import copy
import numpy as np
from mc import ref, models, grad
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (layout, parameter kinds, parameter point, cotangent, adjoint backend, forward options): every entry of the reverse-mode gradient '
        'compared with the direct sensitivity of the reference model; non-trivial: the reference gradient is not zero')
BOUND = {'quick': '3 layouts x 5 parameter routes x cotangents, all unit outputs of one layout, 8 adjoint backends with cotangents of magnitude 1e4 to 1e-18, 7 forward option sets, 2 layouts with a reduction matrix',
         'thorough': '6 layouts x 15 subsets of parameter kinds x 3 points x cotangents, all unit outputs of 4 layouts, 14 adjoint backends on 4 layouts, all with and without a reduction matrix'}
ASSUMPTIONS = ['forward solves are run to a residual of 1e-10 so that the gradient tolerance of 1e-5 is far above the truncation of Newton']
KINDS = ['iv', 'siv', 'points', 'vals']
ADJ = [{'spsolve_solver': {}}, {}, {'jax_solver': {}}, {'jax_solver': {'precond': True}}, {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}},
       {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'ilu'}}, {'custom_solver': 'exact'}, {'petsc_solver': {'ksp_type': 'preonly', 'pc_type': 'lu'}},
       {'jax_solver': {'precond': False}}, {'petsc_solver': {'ksp_type': 'bicg', 'pc_type': 'jacobi'}}, {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'none'}},
       {'petsc_solver': {'ksp_type': 'bcgs', 'pc_type': 'ilu'}}, {'petsc_solver': {'ksp_type': 'bcgsl'}}, {'petsc_solver': {}}]
FWD = ['spsolve', 'flat', 'guess', 'exactguess', 'linesearch', 'petsc', 'tracedguess', 'jax']


def subsets():
    return [[k for i, k in enumerate(KINDS) if m >> i & 1] for m in range(1, 16)]


def jobs(tier, seed):
    js = []
    if tier == 'quick':
        for lay in ('vector', 'coupled', 'tri6'):
            for ks in ([k] for k in KINDS):
                js.append(dict(kind='route', lay=lay, kinds=ks, points=[1], pm=0))
            js.append(dict(kind='route', lay=lay, kinds=KINDS, points=[0], pm=0))
        for a in range(8):
            js.append(dict(kind='adj', lay='vector', a=[a], pm=0))
        js.append(dict(kind='units', lay='vector', part=[0, 2], pm=0))
        js.append(dict(kind='units', lay='vector', part=[1, 2], pm=0))
        js += [dict(kind='fwd', lay='vector', f=[f], pm=0) for f in FWD[:7]]
        for lay in ('vector', 'coupled'):
            js.append(dict(kind='route', lay=lay, kinds=KINDS, points=[1], pm=1))
        js += [dict(kind='adj', lay='vector', a=[2, 4], pm=1), dict(kind='misc', lay='vector', pm=0)]
    else:
        for lay in grad.LAY:
            for pm in (0, 1):
                for ks in subsets():
                    js.append(dict(kind='route', lay=lay, kinds=ks, points=[0, 1, 2] if len(ks) in (1, 4) else [1], pm=pm))
        for lay in ('vector', 'coupled', 'tet', 'three'):
            for pm in (0, 1):
                js += [dict(kind='adj', lay=lay, a=[a], pm=pm) for a in range(len(ADJ))]
                js += [dict(kind='units', lay=lay, part=[i, 6], pm=pm) for i in range(6)]
                js += [dict(kind='fwd', lay=lay, f=[f], pm=pm) for f in FWD]
                js.append(dict(kind='misc', lay=lay, pm=pm))
    js.sort(key=lambda j: 0 if j['lay'] != 'vector' or (j['kind'] == 'adj') else 1)
    return js


def adj_options(o):
    from mc.checks.c05 import dense
    import jax.numpy as jnp
    o = copy.deepcopy(o)
    if o.get('custom_solver') == 'exact':
        o['custom_solver'] = lambda A, b, x0, opts: jnp.asarray(np.linalg.solve(dense(A), np.asarray(b)))
    return o


TIGHT = {'tol': 1e-11, 'rel_tol': 1e-13}


def cotangents(w):
    n = w.r.n
    i = np.arange(n)
    out = {'dense': np.cos(1. + 2.3 * i), 'first': np.eye(n)[0], 'free': np.eye(n)[n // 2]}
    if len(w.r.spaces) > 1:
        lastvar = np.where(i >= w.r.off[len(w.r.spaces) - 1], np.sin(1. + i), 0.)
        out['lastvar'] = lastvar
    return out


def compare(w, got, sens, prm, cot, tag, tol=1e-5, unit=1.):
    for path, a in w.leaves(prm):
        g = got
        for k in path:
            g = g[k]
        want = np.tensordot(cot, sens[path], axes=(0, 0))
        scale = max(unit, np.abs(want).max() if want.size else 0.)
        if np.asarray(g).shape != a.shape or not np.all(np.isfinite(np.asarray(g))) or (want.size and np.abs(np.asarray(g) - want).max() > tol * scale):
            raise CheckFail('%s: derivative with respect to %s is wrong: %s' % (tag, path, ref.diff(np.asarray(g), want)))


def gradient(w, prm, cot, fwd, adj, extra=None):
    import jax
    import jax.numpy as jnp
    from jax_fem import solver as S
    args = (w.p, fwd) if adj is None else (w.p, fwd, adj)
    pred = S.ad_wrapper(*args)
    sol, vjp = jax.vjp(pred, grad.jaxify(prm))
    g, = vjp([jnp.asarray(a) for a in models.split_list(w.p, cot)])
    return models.flat(sol), g


def run(job, ctx):
    import jax
    import jax.numpy as jnp
    from jax_fem import solver as S
    w = grad.GradWorld(job['lay'], grad.tie_last if job['pm'] else None)
    cots = cotangents(w)
    spd = {'newton': dict(TIGHT, linear={'spsolve_solver': {}})}

    def one(name, prm, cot, fwd, adj, memo={}):
        def f():
            k = str([(p, a.tobytes()) for p, a in w.leaves(prm)])
            if k not in memo:
                memo.clear()
                memo[k] = w.sensitivity(prm)
            u, sens = memo[k]
            sol, g = gradient(w, prm, cot, fwd, adj)
            if not ref.close(sol, u, 1e-7, 1e-8):
                raise CheckFail('forward solution differs from the reference: %s' % ref.diff(sol, u))
            compare(w, g, sens, prm, cot, str(name))
            m = max(np.abs(np.tensordot(cot, s, axes=(0, 0))).max() for s in sens.values() if s.size)
            ctx.outcome('gradient magnitude 1e%d' % np.floor(np.log10(m + 1e-30)))
            return m
        ctx.case(name, f)

    if job['kind'] == 'route':
        for k in job['points']:
            prm = w.theta(k, job['kinds'])
            for c in cots:
                one(['route', job['kinds'], k, c], prm, cots[c], spd, {'spsolve_solver': {}})
    elif job['kind'] == 'adj':
        prm = w.theta(2, KINDS)
        for a in job['a']:
            def wrapped(name, cot, unit=1.):
                def f():
                    u, sens = w.sensitivity(prm)
                    try:
                        sol, g = gradient(w, prm, cot, spd, adj_options(ADJ[a]))
                    except AssertionError as e:
                        if a < 8:  # these backends solve every system of the menu
                            raise
                        ctx.outcome('backend refused')
                        return 'refused'
                    # PETSc iterations stop at a relative residual of 1e-5
                    compare(w, g, sens, prm, cot, str(name), 2e-3 if 'petsc_solver' in ADJ[a] else 1e-5, unit)
                    ctx.outcome('backend answered')
                ctx.case(name, f)
            for c in ('dense', 'free'):
                wrapped(['adj', a, c], cots[c])
            # objectives measured in other units
            for c in (1e-18, 1e-12, 1e-5, 1e4):
                if c < 1. or 'spsolve_solver' in ADJ[a] or 'custom_solver' in ADJ[a]:  # iterative backends refuse residuals above 0.1
                    wrapped(['adj', a, c], c * cots['dense'], c)
    elif job['kind'] == 'units':
        prm = w.theta(1, KINDS)
        for d in range(job['part'][0], w.r.n, job['part'][1]):
            one(['unit', d], prm, np.eye(w.r.n)[d], spd, {'spsolve_solver': {}})
    elif job['kind'] == 'fwd':
        prm = w.theta(1, KINDS)
        for name in job['f']:
            n = w.r.n if w.P is None else w.P.shape[1]
            z = models.state(n, 1)

            def guess(v):
                return models.split_list(w.p, v) if w.P is None else v
            fwd = {'spsolve': spd, 'flat': dict(TIGHT, spsolve_solver={}), 'guess': {'newton': dict(TIGHT, linear={'spsolve_solver': {}}, initial_guess=guess(z))},
                   'exactguess': {'newton': dict(tol=1e-8, linear={'spsolve_solver': {}}, initial_guess=None)},
                   'linesearch': {'newton': dict(TIGHT, linear={'spsolve_solver': {}}, line_search_flag=True)},
                   'petsc': {'newton': dict(tol=1e-9, linear={'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}})},
                   'jax': {'newton': dict(tol=1e-9, linear={'jax_solver': {}})}, 'tracedguess': None}[name]
            if name == 'exactguess':
                P = np.eye(w.r.n) if w.P is None else w.P.toarray()
                u = w.solve(prm)
                zz = np.linalg.lstsq(P, u, rcond=None)[0]
                fwd['newton']['initial_guess'] = [jnp.asarray(a) for a in guess(zz)] if w.P is None else jnp.asarray(zz)
            if name == 'tracedguess':
                # a guess computed by JAX from the parameters, concrete when the solve runs
                fwd = {'newton': dict(TIGHT, linear={'spsolve_solver': {}}, initial_guess=jax.tree_util.tree_map(lambda a: jnp.asarray(a) * jnp.sum(jnp.asarray(prm['iv'][0])), guess(.1 * z)))}
            for c in ('dense', 'free'):
                one(['fwd', name, c], prm, cots[c], fwd, {'spsolve_solver': {}})
    else:
        misc(w, ctx, spd, cots)


def misc(w, ctx, spd, cots):
    """Nested parameter structures, composition with other JAX code, scalar objectives, jacobians."""
    import jax
    import jax.numpy as jnp
    from jax_fem import solver as S
    base = w.theta(1, ['iv', 'siv'])
    iv = [jnp.asarray(a) for a in base['iv']]
    siv = [[jnp.asarray(a) for a in s] for s in base['siv']]
    cot = cots['dense']
    u, sens = w.sensitivity(base)
    want_iv0 = np.tensordot(cot, sens[('iv', 0)], axes=(0, 0))
    want_all = {p: np.tensordot(cot, s, axes=(0, 0)) for p, s in sens.items()}
    plain = w.p.set_params

    structures = {
        'tuple': ((iv[0], (iv[1], None)), lambda t: {'iv': [t[0], t[1][0]], 'siv': siv}, lambda g: g[0]),
        'array': (iv[0], lambda t: {'iv': [t, iv[1]], 'siv': siv}, lambda g: g),
        'dict': ({'a': [iv[0]], 'b': {'c': iv[1], 'unused': jnp.ones(3)}}, lambda t: {'iv': [t['a'][0], t['b']['c']], 'siv': siv}, lambda g: g['a'][0]),
        'scalar': (jnp.asarray(1.), lambda t: {'iv': [t * iv[0], iv[1]], 'siv': siv}, None),
        'pyscalar': (1., lambda t: {'iv': [t * iv[0], iv[1]], 'siv': siv}, None),
        'list2': ([jnp.asarray(1.), jnp.asarray(1.)], lambda t: {'iv': [t[0] * t[1] * iv[0], iv[1]], 'siv': siv}, None)}
    for name, (prm, expand, pick) in structures.items():
        def f():
            w.p.set_params = lambda q: plain(expand(q))
            try:
                pred = S.ad_wrapper(w.p, spd, {'spsolve_solver': {}})

                def J(t):
                    return jnp.dot(jnp.asarray(cot), jax.flatten_util.ravel_pytree(pred(t))[0])
                val, g = jax.value_and_grad(J)(prm)
                if not abs(float(val) - cot @ u) <= 1e-7 * max(1., abs(cot @ u)):
                    raise CheckFail('value %r, reference %r' % (float(val), cot @ u))
                if jax.tree_util.tree_structure(g) != jax.tree_util.tree_structure(prm):
                    raise CheckFail('gradient structure %s' % jax.tree_util.tree_structure(g))
                if pick is None:
                    s = float((want_iv0 * base['iv'][0]).sum())
                    for l in jax.tree_util.tree_leaves(g):
                        if not abs(float(l) - s) <= 1e-5 * max(1., abs(s)):
                            raise CheckFail('scalar derivative %r, reference %r' % (float(l), s))
                else:
                    if not ref.close(np.asarray(pick(g)), want_iv0, 1e-5, 1e-6):
                        raise CheckFail('gradient differs: %s' % ref.diff(np.asarray(pick(g)), want_iv0))
                if name == 'dict' and np.abs(np.asarray(g['b']['unused'])).max() != 0.:
                    raise CheckFail('an unused parameter has a non-zero derivative')
            finally:
                w.p.set_params = plain
        ctx.case(['misc', name], f)

    def composed():
        pred = S.ad_wrapper(w.p, spd, {'spsolve_solver': {}})

        def J(a):
            s1 = pred({'iv': [a * iv[0], iv[1]], 'siv': siv})
            return jnp.sum(s1[0] ** 2) + jnp.sin(a) * s1[0][1, 0]
        v, g = jax.value_and_grad(J)(1.)
        n0 = w.r.off[1]
        du = (sens[('iv', 0)] * base['iv'][0]).reshape(w.r.n, -1).sum(1)
        k = w.r.spaces[0].vec
        want = 2 * u[:n0] @ du[:n0] + np.cos(1.) * u[k] + np.sin(1.) * du[k]
        if not abs(float(g) - want) <= 1e-5 * max(1., abs(want)):
            raise CheckFail('derivative of a composed objective %r, reference %r' % (float(g), want))
        return float(g)
    ctx.case(['misc', 'composed'], composed)

    def twice():
        # two solves with different parameters in one objective
        pred = S.ad_wrapper(w.p, spd, {'spsolve_solver': {}})

        def J(a):
            s1 = pred({'iv': [a * iv[0], iv[1]], 'siv': siv})
            s2 = pred({'iv': [(a + .3) * iv[0], iv[1]], 'siv': siv})
            return jnp.sum(s1[0] * s2[0])
        g = float(jax.grad(J)(1.))
        p2 = {'iv': [1.3 * base['iv'][0], base['iv'][1]], 'siv': base['siv']}
        u2, sens2 = w.sensitivity(p2)
        n0 = w.r.off[1]
        d1 = (sens[('iv', 0)] * base['iv'][0]).reshape(w.r.n, -1).sum(1)
        d2 = (sens2[('iv', 0)] * base['iv'][0]).reshape(w.r.n, -1).sum(1)
        want = u2[:n0] @ d1[:n0] + u[:n0] @ d2[:n0]
        if not abs(g - want) <= 1e-5 * max(1., abs(want)):
            raise CheckFail('derivative of an objective with two solves %r, reference %r' % (g, want))
        return g
    ctx.case(['misc', 'two solves'], twice)

    def chained():
        # the second solve's parameters come from the first solution
        pred = S.ad_wrapper(w.p, spd, {'spsolve_solver': {}})

        def J(a):
            s1 = pred({'iv': [a * iv[0], iv[1]], 'siv': siv})
            b = 1. + .3 * jnp.sum(s1[0]) / w.r.n
            s2 = pred({'iv': [b * iv[0], iv[1]], 'siv': siv})
            return jnp.sum(s2[0] ** 2)
        g = float(jax.grad(J)(1.))
        n0 = w.r.off[1]
        d1 = (sens[('iv', 0)] * base['iv'][0]).reshape(w.r.n, -1).sum(1)
        b = 1. + .3 * u[:n0].sum() / w.r.n
        u2, sens2 = w.sensitivity({'iv': [b * base['iv'][0], base['iv'][1]], 'siv': base['siv']})
        d2 = (sens2[('iv', 0)] * base['iv'][0]).reshape(w.r.n, -1).sum(1)
        want = 2 * u2[:n0] @ d2[:n0] * .3 * d1[:n0].sum() / w.r.n
        if not abs(g - want) <= 1e-5 * max(1., abs(want)):
            raise CheckFail('derivative of chained solves %r, reference %r' % (g, want))
        return g
    ctx.case(['misc', 'chained'], chained)

    def warm():
        # continuation inside the differentiated function: each solve starts from the previous solution
        for lin in ('flat', 'nested'):
            opts = {'newton': dict(TIGHT, linear={'spsolve_solver': {}})} if lin == 'nested' else dict(TIGHT, spsolve_solver={})
            pred = S.ad_wrapper(w.p, opts, {'spsolve_solver': {}})
            block = opts['newton'] if lin == 'nested' else opts

            def J(a):
                block.pop('initial_guess', None)
                s1 = pred({'iv': [(a + .3) * iv[0], iv[1]], 'siv': siv})
                block['initial_guess'] = s1 if w.P is None else jnp.asarray(np.linalg.lstsq(w.P.toarray(), np.ones(w.r.n), rcond=None)[0]) * a
                s2 = pred({'iv': [a * iv[0], iv[1]], 'siv': siv})
                return jnp.sum(s2[0] ** 2)
            n0 = w.r.off[1]
            du = (sens[('iv', 0)] * base['iv'][0]).reshape(w.r.n, -1).sum(1)
            want = 2 * u[:n0] @ du[:n0]
            for f in (jax.grad(J), lambda a: jax.value_and_grad(J)(a)[1], lambda a: jax.vjp(J, a)[1](1.)[0]):
                g = float(f(1.))
                if not abs(g - want) <= 1e-5 * max(1., abs(want)):
                    raise CheckFail('derivative with a guess from an earlier solve %r, reference %r' % (g, want))
        return g
    ctx.case(['misc', 'warm start'], warm)
