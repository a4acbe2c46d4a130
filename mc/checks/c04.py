"""C04: assembled residual = integral of the weak form.  Space: configurations of terms, surfaces, variables, elements."""
import numpy as np
from mc import ref, models, forms
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (configuration of volume terms x surface sets x internal variables x element types x components, nodal state); '
        'non-trivial: the reference residual is not zero; configurations enumerated as full products')
BOUND = {'quick': 'all 7 term combinations x 6 surface layouts x 4 internal-variable layouts (one of nested containers) on TRI3 and QUAD4, every element type with 1-3 components, 6 coupled layouts, 1-100 cells, orders 1-4',
         'thorough': 'product on 6 element types, all layouts for every element type, orders 1-7'}
ASSUMPTIONS = ['nodal states come from a fixed menu of irregular vectors (plus every unit vector for the linear configurations)']


def jobs(tier, seed):
    return forms.jobs(tier)


def run(job, ctx):
    import jax.numpy as jnp
    cls = models.make_problem_class()
    for label, form, mm, order in forms.expand(job):
        p = ctx.case(['build', job, label], lambda: models.build(cls, form, mm, order=order), nontrivial=False)
        if p is None:
            continue
        r = models.reference(form, mm, order)
        ivs, sivs = models.ref_ivs(form, r)
        lin = form.get('U') == 'lin' or form.get('T') == 'nonsym'
        states = [models.state(r.n, k) for k in (0, 1, 2)]
        if lin and r.n <= 40:
            states += [e for e in np.eye(r.n)]
        for k, u in enumerate(states):
            want = r.residual(u, ivs, sivs)

            def f():
                sols = models.split_list(p, u)
                if k != 1:
                    sols = [jnp.asarray(s) for s in sols]
                got = p.compute_residual(sols)
                if len(got) != len(r.spaces):
                    raise CheckFail('%d residual blocks for %d variables' % (len(got), len(r.spaces)))
                for g, s in zip(got, sols):
                    if g.shape != s.shape:
                        raise CheckFail('residual block of shape %s for a solution of shape %s' % (g.shape, s.shape))
                if not ref.close(models.flat(got), want, 1e-9, 1e-9):
                    raise CheckFail('residual differs from the integrated weak form: ' + ref.diff(models.flat(got), want))
                return 'norm %.3g' % np.linalg.norm(want)
            ctx.case(['residual', job, label, k], f, nontrivial=np.linalg.norm(want) > 0)
        if form.get('iv'):
            # the variables handed over explicitly are the ones used, and the stored ones stay
            def f():
                n = form['iv']
                u = states[1]
                iv2 = models.jx(models.iv_fields(n, np.asarray(p.physical_quad_points), .7))
                siv2 = [models.jx(models.iv_fields(n, np.asarray(x), 2.5 + 2 * i)) for i, x in enumerate(p.physical_surface_quad_points)]
                got = p.compute_residual_vars(models.split_list(p, u), iv2, siv2)
                want = r.residual(u, models.iv_fields(n, r.geo[0]['x'], .7), [models.iv_fields(n, g[0]['x'], 2.5 + 2 * i) for i, g in enumerate(r.fgeo)])
                if not ref.close(models.flat(got), want, 1e-9, 1e-9):
                    raise CheckFail('explicit internal variables: ' + ref.diff(models.flat(got), want))
                again = p.compute_residual(models.split_list(p, u))
                if not ref.close(models.flat(again), r.residual(u, ivs, sivs), 1e-9, 1e-9):
                    raise CheckFail('stored internal variables changed by an explicit evaluation')
                p.internal_vars, p.internal_vars_surfaces = iv2, siv2
                if not ref.close(models.flat(p.compute_residual(models.split_list(p, u))), want, 1e-9, 1e-9):
                    raise CheckFail('replaced internal variables are not used')
            ctx.case(['internal-vars', job, label], f)
