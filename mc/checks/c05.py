"""C05: tangent = derivative of the imposed residual.  Same configuration space as C04, with Dirichlet menus."""
import numpy as np
from mc import ref, models, forms
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (weak-form configuration, Dirichlet menu, nodal state): every entry of the assembled matrix compared with the '
        'complex-step derivative of the reference residual; non-trivial: a non-zero tangent')
BOUND = {'quick': 'same configurations as C04, 3 Dirichlet menus, 2 states', 'thorough': 'same configurations as C04 thorough, 3 Dirichlet menus, 3 states'}
ASSUMPTIONS = ['nodal states come from a fixed menu of irregular vectors']


def jobs(tier, seed):
    js = forms.jobs(tier)
    for j in js:
        j['states'] = [1, 2] if tier == 'quick' else [0, 1, 2]
    return js


def dense(A):
    n, m = A.getSize()
    i, j, v = A.getValuesCSR()
    import scipy.sparse
    return scipy.sparse.csr_matrix((v, j, i), shape=(n, m)).toarray()


def bc_menu(form):
    last = len(form['vecs']) - 1
    c = form['vecs'][last] - 1
    return [('none', []), ('edge', [[0, 'x-', 0, 'const'], [last, 'x-', c, 'x']]),
            ('overlap', [[0, 'x-', 0, 'x'], [0, 'y+', 0, 'const'], [last, 'x+', c, 'xx'], [0, 'none', 0, 'zero']])]


def run(job, ctx):
    import jax.numpy as jnp
    from jax_fem.solver import get_A
    cls = models.make_problem_class()
    for label, form, mm, order in forms.expand(job):
        r = models.reference(form, mm, order)
        ivs, sivs = models.ref_ivs(form, r)
        nv = len(form['eles'])
        p = ctx.case(['build', job, label], lambda: models.build(cls, form, mm, order=order), nontrivial=False)
        if p is None:
            continue
        jac = {}
        for name, conds in bc_menu(form):
            info = models.bc_info(conds, nv, mm[0][0])
            for fe, inf in zip(p.fes, [info] if nv == 1 else info):
                fe.update_Dirichlet_boundary_conditions(inf)
            bc = models.ref_bc(conds, r)
            for k in job['states']:
                u = models.state(r.n, k)
                if k not in jac:
                    jac[k] = (r.jacobian(u, ivs, sivs), r.residual(u, ivs, sivs))

                def f():
                    got = p.newton_update([jnp.asarray(s) for s in models.split_list(p, u)])
                    if not ref.close(models.flat(got), jac[k][1], 1e-9, 1e-9):
                        raise CheckFail('residual returned with the tangent: ' + ref.diff(models.flat(got), jac[k][1]))
                    A = dense(get_A(p))
                    W = jac[k][0].copy()
                    for d in r.bc_map(bc):
                        W[d] = 0.
                        W[d, d] = 1.
                    if not ref.close(A, W, 1e-9, 1e-9):
                        raise CheckFail('tangent matrix: ' + ref.diff(A, W))
                    return 'norm %.3g' % np.linalg.norm(A)
                ctx.case(['tangent', job, label, name, k], f, nontrivial=np.linalg.norm(jac[k][0]) > 0)
