"""C10: meaning and immutability of solver options.  Space: products of option keys, nested and flat, for every method."""
import copy
import itertools
import numpy as np
from mc import ref, models, arcprob
from mc.core import CheckFail
from mc.checks import c08

LEVEL = 'exploration'
RULE = ('one case per option dictionary: the result is bitwise equal to the one of the fully explicit dictionary with the documented defaults, '
        'called twice with the same object, and every object passed is unchanged; non-trivial: at least one key given')
BOUND = {'quick': 'all 81 combinations of Newton keys x nested/flat, 12 linear blocks x 3 key combinations x nested/flat, 24 arc-length and 10 relaxation dictionaries, 8 adjoint dictionaries, rejected dictionaries',
         'thorough': 'additionally all linear blocks with all Newton keys, both continuation step limits by default'}
ASSUMPTIONS = ['repeating a computation with identical inputs gives bitwise identical results on one machine']
KEYS = {'tol': [None, 1e-6, 1e-3], 'rel_tol': [None, 1e-8, 1e-2], 'line_search_flag': [None, False, True], 'initial_guess': [None, 'zero', 'irregular']}
LIN = [None, {}, {'jax_solver': {}}, {'jax_solver': {'precond': True}}, {'jax_solver': {'precond': False}}, {'spsolve_solver': {}}, {'petsc_solver': {'pc_type': 'jacobi', 'ksp_type': 'gmres'}},
       {'petsc_solver': {'ksp_type': 'gmres'}}, {'petsc_solver': {'pc_type': 'jacobi'}}, {'petsc_solver': {}}, {'spsolve_solver': {'note': 1}}, {'custom_solver': 'exact'}]


def jobs(tier, seed):
    js = []
    combos = list(itertools.product(range(3), repeat=4))
    for c in range(6):
        js.append(dict(kind='newton', keys=combos[c::6], lin=[11]))
    if tier == 'quick':
        for l in range(12):
            js.append(dict(kind='newton', keys=[[0, 0, 0, 0], [2, 1, 2, 2]], lin=[l]))
    else:
        for l in range(12):
            for c in range(3):
                js.append(dict(kind='newton', keys=combos[c::3] if l > 4 else combos[c::9], lin=[l]))
    js += [dict(kind='arc', control=c, ks=ks) for c in ('displacement', 'force') for ks in ([0, 1, 2], [3, 4, 6, 7], [5])]
    js += [dict(kind='dr'), dict(kind='reject'), dict(kind='adjoint', part=0), dict(kind='adjoint', part=1)]
    if tier == 'thorough':
        js += [dict(kind='limit', control=c) for c in ('displacement', 'force')]
    js.sort(key=lambda j: 0 if j['kind'] in ('adjoint', 'arc') or j.get('lin') in ([0], [1], [2], [3], [4]) else 1)
    return js


def snap(o):
    """Value snapshot of nested options (arrays by value, functions by identity)."""
    if isinstance(o, dict):
        return ('d', [(k, snap(o[k])) for k in sorted(o, key=str)])
    if isinstance(o, (list, tuple)):
        return ('l', type(o).__name__, [snap(x) for x in o])
    if hasattr(o, 'shape'):
        return ('a', type(o).__name__, np.asarray(o).tobytes(), tuple(o.shape))
    return ('v', repr(o), id(o) if callable(o) else 0)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)


class Env:
    def __init__(self, lay='vector', bc=0):
        self.cls = models.make_problem_class()
        self.form, self.mm, self.r, self.sets = c08.make(lay, self.cls)
        self.p = models.build(self.cls, self.form, self.mm)
        c08.put_bc(self.p, self.sets[bc])
        self.calls = 0

    def exact(self, A, b, x0, o):
        import jax.numpy as jnp
        from mc.checks.c05 import dense
        self.calls += 1
        return jnp.asarray(np.linalg.solve(dense(A), np.asarray(b)))

    def lin(self, l):
        l = copy.deepcopy(l)
        if l and l.get('custom_solver') == 'exact':
            l['custom_solver'] = self.exact
        return l

    def solve(self, opts):
        from jax_fem.solver import solver
        self.calls = 0
        out = solver(self.p, opts) if opts is not None else solver(self.p)
        return models.flat(out), self.calls


def run(job, ctx):
    import jax.numpy as jnp
    from jax_fem import solver as S
    if job['kind'] == 'newton':
        e = Env()
        cache = {}
        names = list(KEYS)

        def value(k, i):
            v = KEYS[k][i]
            if k == 'initial_guess' and v is not None:
                u = np.zeros(e.r.n) if v == 'zero' else models.state(e.r.n, 1)
                sl = models.split_list(e.p, u)
                return sl if v == 'zero' else [jnp.asarray(a) for a in sl]
            return v
        for li in job['lin']:
            for idx in job['keys']:
                given = {k: value(k, i) for k, i in zip(names, idx) if KEYS[k][i] is not None}
                full_lin = e.lin(LIN[li]) if LIN[li] else {'jax_solver': {'precond': True}}
                if 'jax_solver' in full_lin and 'precond' not in full_lin['jax_solver']:
                    full_lin = {'jax_solver': {'precond': True}}
                if 'petsc_solver' in full_lin:
                    full_lin = {'petsc_solver': dict({'ksp_type': 'bcgsl', 'pc_type': 'ilu'}, **full_lin['petsc_solver'])}
                full = {'newton': dict({'tol': 1e-6, 'rel_tol': 1e-8, 'line_search_flag': False, 'initial_guess': models.split_list(e.p, np.zeros(e.r.n))}, **given, linear=full_lin)}

                def explicit():
                    try:
                        return e.solve(full)
                    except AssertionError as x:
                        return ('raises', type(x).__name__)
                k = None

                def f(flat):
                    o = dict(given)
                    if LIN[li] is not None:
                        if flat:
                            o.update(e.lin(LIN[li]))
                        else:
                            o['linear'] = e.lin(LIN[li])
                    if not flat:
                        o = {'newton': o}
                    s = snap(o)
                    key = (li, tuple(idx))
                    if key not in cache:
                        cache[key] = explicit()
                    for turn in range(2):
                        try:
                            got = e.solve(o)
                        except AssertionError as x:
                            got = ('raises', type(x).__name__)
                        if snap(o) != s:
                            raise CheckFail('options changed by the call: %s' % (o,))
                        w = cache[key]
                        if got[0] is w[0] == 'raises':
                            continue
                        if isinstance(got[0], str) or isinstance(w[0], str) or not same(got[0], w[0]) or got[1] != w[1]:
                            raise CheckFail('call %d with %s gives another result than the explicit options (%s)' % (
                                turn + 1, o, 'linear solves %s vs %s' % (got[1], w[1]) if isinstance(w[0], str) or isinstance(got[0], str) else ref.diff(got[0], w[0])))
                    ctx.outcome('%s linear solves' % (got[1],))
                for flat in (False, True):
                    ctx.case(['newton', idx, li, 'flat' if flat else 'nested'], lambda: f(flat), nontrivial=any(idx) or li > 0)
                if not any(idx) and LIN[li] in (None, {}):
                    def g():
                        key = (li, tuple(idx))
                        for o in ({}, None, {'newton': {}}, {'newton': {'linear': {}}}):
                            got = e.solve(o)
                            if not same(got[0], cache[key][0]):
                                raise CheckFail('default options %s differ from the documented ones' % (o,))
                            if o not in ({}, None, {'newton': {}}, {'newton': {'linear': {}}}):
                                raise CheckFail('options changed to %s' % (o,))
                        for fn in (S.solver, S.ad_wrapper):
                            for d in fn.__defaults__ or ():
                                if d not in ({}, None):
                                    raise CheckFail('the default options of %s have become %s' % (fn.__name__, d))
                    ctx.case(['newton', 'defaults', li], g)
                if not any(idx) and li == 11:
                    # distinct settings are really distinguishable on this problem
                    def d():
                        n = [e.solve({'newton': dict(x, linear=e.lin(LIN[11]))})[1] for x in ({}, {'tol': 1e-1, 'rel_tol': 1e-12}, {'tol': 1e-12, 'rel_tol': 1e-1})]
                        if not (n[0] > n[1] > 0 and n[0] > n[2] > 0):
                            raise CheckFail('tolerances have no influence on the number of iterations: %s' % n)
                    ctx.case(['newton', 'influence', idx], d)
        return
    if job['kind'] in ('arc', 'limit'):
        return arc(job, ctx)
    if job['kind'] == 'dr':
        return relax(job, ctx)
    if job['kind'] == 'reject':
        return reject(job, ctx)
    return adjoint(job, ctx)


def arc(job, ctx):
    import jax.numpy as jnp
    from jax_fem import solver as S
    cls = models.make_problem_class()
    base = {'displacement': dict(control='displacement', psi=1., Delta_l=.1, max_continuation_steps=600),
            'force': dict(control='force', psi=.5, Delta_l=.1, Delta_l_late=1., Delta_l_switch_step=200, max_continuation_steps=500)}

    def setup(control):
        p, r, bc, form = arcprob.make({'displacement': 'cubic', 'force': 'snap'}[control], control, cls, .6)
        return p, -S.get_q_vec(p)
    if job['kind'] == 'limit':
        # the documented step limits, reached with a tiny arc length
        def f():
            n = []
            p, q = setup(job['control'])
            o = {'control': job['control'], 'Delta_l': 1e-5, 'return_info': True, 'step_callback': lambda s, u, l: n.append(s), 'q_vec_aux': q}
            if job['control'] == 'force':
                o['Delta_l_late'] = 1e-5
            sol, info = S.solver(p, {'arc_length': o})
            want = base[job['control']]['max_continuation_steps']
            if len(n) != want or len(info['history']) != want:
                raise CheckFail('default step limit is %d, documented %d' % (len(n), want))
        ctx.case(['limit', job['control']], f, timeout=600)
        return

    def run1(p, o):
        out = S.solver(p, o)
        return models.flat(out[0]), [(h['step'], h['lam'], h['u'].copy()) for h in out[1]['history']], out[1]
    variants = [{}, {'psi': .8}, {'Delta_l': .3}, {'max_continuation_steps': 2}, {'newton': {'tol': 1e-9}}, {'linear': {'jax_solver': {}}, 'Delta_l': .3}]
    fvar = variants + [{'Delta_l_switch_step': 1}, {'Delta_l_switch_step': 1, 'Delta_l_late': .2}]
    for control in [job['control']]:
        p, q = setup(control)
        seen = {}
        for k, v in enumerate(variants if control == 'displacement' else fvar):
            if k not in job['ks']:
                continue

            def f():
                v2 = copy.deepcopy(v)
                if k not in (5,):
                    v2['linear'] = {'spsolve_solver': {}}
                if control == 'force':
                    v2['q_vec_aux'] = q
                o = {'arc_length': dict(v2, control=control, return_info=True)}
                s = snap(o)
                a = run1(p, o)
                b = run1(p, o)
                if snap(o) != s:
                    raise CheckFail('arc-length options changed: %s' % (o,))
                full = {'arc_length': dict(base[control], **dict(v2, control=control, return_info=True))}
                w = run1(p, full)
                for x in (a, b):
                    if not same(x[0], w[0]) or len(x[1]) != len(w[1]) or any(not same(m[2], n[2]) or m[1] != n[1] for m, n in zip(x[1], w[1])):
                        raise CheckFail('options %s differ from the documented defaults: %d vs %d steps' % (v, len(x[1]), len(w[1])))
                plain = S.solver(p, {'arc_length': dict(v2, control=control)})
                if isinstance(plain, tuple) or not same(models.flat(plain), w[0]):
                    raise CheckFail('without return_info another result is returned')
                if k not in (4, 5):
                    sig = (len(w[1]), w[1][min(2, len(w[1]) - 1)][1])
                    if sig in seen.values():
                        raise CheckFail('option %s has no effect' % (v,))
                    seen[k] = sig
                ctx.outcome('%s %d steps lam %.2f' % (control, len(w[1]), w[2]['lam']))
                return len(w[1])
            ctx.case(['arc', control, v], f)


def relax(job, ctx):
    from jax_fem import solver as S
    e = Env('vector', 0)
    full = dict(tol=1e-6, nKMat=1000, nPrint=500, info=True, info_force=True, linear={'spsolve_solver': {}})
    guess = models.split_list(e.p, models.state(e.r.n, 1))
    for v in ({}, {'tol': 1e-3}, {'tol': 1e-9}, {'nKMat': 2}, {'info': False}, {'nPrint': 3, 'info_force': False}, {'linear': {}}, {'linear': {'spsolve_solver': {}}},
              {'initial_guess': guess}, {'initial_guess': guess, 'tol': 1e-3}):
        def f():
            o = {'dynamic_relax': copy.copy(v)}
            s = snap(o)
            a = e.solve(o)[0]
            b = e.solve(o)[0]
            if snap(o) != s:
                raise CheckFail('relaxation options changed: %s' % (o,))
            w = e.solve({'dynamic_relax': dict(full, **{k: x for k, x in v.items() if k != 'linear' or x})})[0]
            if not same(a, w) or not same(b, w):
                raise CheckFail('options %s differ from the documented defaults: %s' % (v, ref.diff(a, w)))
            R = np.abs(e.r.imposed(a, e.sets[0][1], *models.ref_ivs(e.form, e.r)))
            ctx.outcome('max residual 1e%d' % np.floor(np.log10(R.max() + 1e-30)))
        ctx.case(['dr', {k: (x if k != 'initial_guess' else 'guess') for k, x in v.items()}], f)


def reject(job, ctx):
    from jax_fem import solver as S
    e = Env('vector', 0)
    q = S.get_q_vec(e.p)
    lin = {'linear': {'spsolve_solver': {}}}
    ms = ['newton', 'arc_length', 'dynamic_relax']
    bad = []
    for r in (2, 3):
        for c in itertools.permutations(ms, r):
            bad.append({m: dict(lin, control='displacement') for m in c})
    bad += [{m: x} for m in ms for x in (None, True, 1., 'spsolve_solver', [])]
    bad += [{'arc_length': {}}, {'arc_length': dict(lin)}, {'arc_length': {'control': 'force'}}, {'arc_length': {'control': 'force', 'q_vec_aux': None}}]
    bad += [{'arc_length': dict(lin, control=c, q_vec_aux=q)} for c in ('load', '', None, 'Displacement', 'disp', 1)]
    for o in bad:
        def f():
            s = snap(o)
            try:
                S.solver(e.p, o)
            except (ValueError, TypeError, KeyError):
                if snap(o) != s:
                    raise CheckFail('rejected options were changed')
                return 'rejected'
            raise CheckFail('contradictory or unknown options accepted: %s' % (o,))
        ctx.case(['reject', [(k, sorted(v) + [str(v.get('control'))] if isinstance(v, dict) else str(v)) for k, v in o.items()]], f)


def adjoint(job, ctx):
    import jax
    import jax.numpy as jnp
    from jax_fem import solver as S
    e = Env()
    iv0 = [jnp.asarray(a) for a in e.p.internal_vars]
    n = len(e.mm[0][0])
    c = jnp.asarray(models.state(e.r.n, 2))
    opts = [None, {}, {'jax_solver': {}}, {'jax_solver': {'precond': True}}, {'jax_solver': {'precond': False}}, {'spsolve_solver': {}}, {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}, {'custom_solver': e.exact}]
    base = {}
    fwd = {'newton': {'linear': {'spsolve_solver': {}}, 'tol': 1e-9, 'initial_guess': models.split_list(e.p, models.state(e.r.n, 1))}}
    for k, o in list(enumerate(opts))[job['part']::2]:
        def f():
            s, sf = snap(o), snap(fwd)
            args = (e.p, fwd) if o is None else (e.p, fwd, o)
            gs = []
            for turn in range(2):
                pred = S.ad_wrapper(*args)
                g = jax.grad(lambda t: jnp.dot(c, jax.flatten_util.ravel_pytree(pred({'iv': [t * iv0[0]]}))[0]))(1.3)
                gs.append(float(g))
                if snap(o) != s or snap(fwd) != sf:
                    raise CheckFail('options changed by differentiation: %s %s' % (o, fwd))
            for d in S.ad_wrapper.__defaults__ or ():
                if d not in ({}, None):
                    raise CheckFail('default options of ad_wrapper have become %s' % (d,))
            if gs[0] != gs[1]:
                raise CheckFail('reusing the options gives another gradient: %r' % gs)
            # reference: finite differences of the reference model
            iv = models.ref_ivs(e.form, e.r)
            bc = e.sets[0][1]
            h = 1e-5
            v = [np.dot(np.asarray(c), e.r.newton(bc, [(1.3 + d) * iv[0][0]], iv[1])) for d in (h, -h)]
            fd = (v[0] - v[1]) / (2 * h)
            if not abs(gs[0] - fd) <= 1e-4 * max(1., abs(fd)):
                raise CheckFail('gradient %g, reference %g' % (gs[0], fd))
            return gs
        ctx.case(['adjoint', k], f)
