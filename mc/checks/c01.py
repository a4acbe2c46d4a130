"""C01: element tables. Space: element type x quadrature rule x order x (cell | every face)."""
import itertools, math
import numpy as np
from mc import ref
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (element type, rule, order, table); non-trivial: the tables exist and every entry is compared with the '
        'reference basis, derivative, face and exact monomial integrals')
BOUND = {'quick': 'orders 0..10, 8 rule spellings, 9 element types, all faces', 'thorough': 'orders 0..24'}
ASSUMPTIONS = ['basix rules are exact to their stated degree (checked here by exact monomial integrals as well)']
RULES = [None, 'default', 'gauss_jacobi', 'gll', 'xiao_gimbutas', 'zienkiewicz_taylor', 'keast', 'strang_fix']


def jobs(tier, seed):
    top = 10 if tier == 'quick' else 24
    js = [dict(ele=e, rule=r, orders=list(range(top + 1))) for e in ref.TYPES for r in RULES]
    return js + [dict(ele=None)]


def _exact(ele, e, verts=None):
    """Exact integral of x^e over the reference cell."""
    if len(ref.ELE[ele]['verts']) == ref.ELE[ele]['dim'] + 1:
        num = 1.
        for a in e:
            num *= math.factorial(a)
        return num / math.factorial(sum(e) + len(e))
    return float(np.prod([1. / (a + 1) for a in e]))


def _gauss_face(ele, f, e):
    """Integral of x^e over reference face f by a high-order rule on the face parametrisation."""
    x, w, T = ref.face_points(ele, f, 2 * max(1, sum(e)) + 2)
    m = np.linalg.norm(T[:, 0]) if T.shape[1] == 1 else np.linalg.norm(np.cross(T[:, 0], T[:, 1]))
    return float(np.sum(w * m * np.prod([x[:, d] ** e[d] for d in range(len(e))], axis=0)))


def _applicable(cell, order, rule):
    try:
        return ref.quadrature(cell, order, rule)
    except Exception:
        return None


def _monos(dim, q):
    q = min(q, 8)
    return [e for e in itertools.product(range(q + 1), repeat=dim) if sum(e) <= q]


def _tab(ele, N, dN, what):
    nodes = ref.ELE[ele]['nodes']
    if N.shape != (N.shape[0], len(nodes)) or dN.shape != N.shape + (nodes.shape[1],):
        raise CheckFail('%s: table shapes %s %s' % (what, N.shape, dN.shape))
    x = N @ nodes
    if not ref.close(N, ref.shape(ele, x), 1e-9, 1e-9):
        raise CheckFail('%s: values are not the nodal basis in mesh ordering: %s' % (what, ref.diff(N, ref.shape(ele, x))))
    if not ref.close(dN, ref.dshape(ele, x), 1e-9, 1e-8):
        raise CheckFail('%s: gradients are not the derivatives of the nodal basis: %s' % (what, ref.diff(dN, ref.dshape(ele, x))))
    return x


def run(job, ctx):
    from jax_fem.basis import get_shape_vals_and_grads as vol, get_face_shape_vals_and_grads as fac
    import basix
    ele = job['ele']
    if ele is None:
        for bad in ['HEX', 'hex8', '', 'QUAD9', 'PRISM6', 'TET', None, 3]:
            def f(bad=bad):
                for fn in (vol, fac):
                    try:
                        fn(bad)
                    except Exception:
                        continue
                    raise CheckFail('unsupported element type %r accepted' % (bad,))
                return 'rejected'
            ctx.case(['bad-ele', bad], f)
        for e in ref.TYPES:
            for rule in [3, 2.5, ['default'], 'no_such_rule', '', ('gll',)]:
                def f(e=e, rule=rule):
                    for fn in (vol, fac):
                        try:
                            fn(e, quadrature_rule=rule)
                        except Exception:
                            continue
                        raise CheckFail('invalid quadrature rule %r accepted' % (rule,))
                    return 'rejected'
                ctx.case(['bad-rule', e, rule], f)

            def d(e=e):
                E = ref.ELE[e]
                a, b = vol(e), vol(e, quadrature_rule='default', quadrature_order=E['q'])
                nq = len(ref.quadrature(E['cell'], E['q'])[1])
                if len(a[2]) != nq:
                    raise CheckFail('default rule has %d points, documented default has %d' % (len(a[2]), nq))
                for x, y in zip(a, b):
                    if not ref.close(np.asarray(x), np.asarray(y)):
                        raise CheckFail('default order/rule differs from the documented one')
                for x, y in zip(fac(e), fac(e, quadrature_rule='default', quadrature_order=E['q'])):
                    if not ref.close(np.asarray(x), np.asarray(y)):
                        raise CheckFail('default face order/rule differs from the documented one')
                return '%d points' % nq
            ctx.case(['default', e], d)
        return
    E = ref.ELE[ele]
    rule = job['rule']
    for q in job['orders']:
        ref_v = _applicable(E['cell'], q, rule)
        ref_f = _applicable(E['fcell'], q, rule)

        def volume():
            if ref_v is None:
                try:
                    vol(ele, quadrature_rule=rule, quadrature_order=q)
                except Exception:
                    return 'not applicable, rejected'
                raise CheckFail('rule not available on this cell was accepted')
            N, dN, w = (np.asarray(a) for a in vol(ele, quadrature_rule=rule, quadrature_order=q))
            if rule is not None:
                t = vol(ele, quadrature_rule=basix.quadrature.string_to_type(rule), quadrature_order=q)
                if not all(ref.close(np.asarray(a), b) for a, b in zip(t, (N, dN, w))):
                    raise CheckFail('rule given as enum differs from rule given by name')
            x = _tab(ele, N, dN, 'cell table')
            if w.shape != (len(N),) or len(w) != len(ref_v[1]):
                raise CheckFail('weights shape %s, the requested rule has %d points' % (w.shape, len(ref_v[1])))
            for e in _monos(E['dim'], q):
                got = float(np.sum(w * np.prod([x[:, d] ** e[d] for d in range(E['dim'])], axis=0)))
                if not abs(got - _exact(ele, e)) <= 1e-9:
                    raise CheckFail('monomial %s integrates to %.12g, exact %.12g' % (e, got, _exact(ele, e)))
            return '%d points' % len(w)

        def faces():
            if ref_f is None:
                try:
                    fac(ele, quadrature_rule=rule, quadrature_order=q)
                except Exception:
                    return 'not applicable, rejected'
                raise CheckFail('rule not available on faces was accepted')
            N, dN, w, nrm, inds = (np.asarray(a) for a in fac(ele, quadrature_rule=rule, quadrature_order=q))
            nf = len(E['faces'])
            if N.shape[0] != nf or w.shape != N.shape[:2] or nrm.shape != (nf, E['dim']) or w.shape[1] != len(ref_f[1]):
                raise CheckFail('face table shapes %s %s %s' % (N.shape, w.shape, nrm.shape))
            want = {tuple(sorted(f)): k for k, f in enumerate(E['faces'])}
            seen = set()
            for f in range(nf):
                key = tuple(sorted(int(i) for i in inds[f]))
                if key not in want or key in seen:
                    raise CheckFail('face %d lists vertices %s' % (f, key))
                seen.add(key)
                k = want[key]
                v = E['verts'][list(key)]
                c, cc = v.mean(0), E['verts'].mean(0)
                n = nrm[f]
                if not (abs(np.linalg.norm(n) - 1) <= 1e-10 and np.max(np.abs((v - c) @ n)) <= 1e-10 and (c - cc) @ n > 0):
                    raise CheckFail('face %d: normal %s is not the unit outward normal' % (f, n))
                x = _tab(ele, N[f], dN[f], 'face %d' % f)
                if not np.max(np.abs((x - c) @ n)) <= 1e-9:
                    raise CheckFail('face %d: quadrature points are off the listed face' % f)
                for e in _monos(E['dim'], q):
                    got = float(np.sum(w[f] * np.prod([x[:, d] ** e[d] for d in range(E['dim'])], axis=0)))
                    ex = _gauss_face(ele, k, e)
                    if not abs(got - ex) <= 1e-9:
                        raise CheckFail('face %d: monomial %s integrates to %.12g, exact %.12g' % (f, e, got, ex))
            return '%d faces x %d points' % (nf, w.shape[1])
        r1 = ctx.case(['volume', ele, rule, q], volume, nontrivial=ref_v is not None)
        r2 = ctx.case(['faces', ele, rule, q], faces, nontrivial=ref_f is not None)
        ctx.outcome('applicable' if ref_v is not None else 'rejected')
