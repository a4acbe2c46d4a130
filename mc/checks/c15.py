"""C15: arc-length continuation.  Space: problems x control x arc length x psi x step limits x switch steps, over complete continuation histories."""
import copy
import itertools
import numpy as np
from mc import ref, models, arcprob
from mc.core import CheckFail

LEVEL = 'model_checking'
RULE = ('one case per continuation run: every recorded step is checked against the reference equations (equilibrium at its load factor, arc length, direction), '
        'the records against each other, the returned solution against the reference residual; non-trivial: at least one step')
BOUND = {'quick': 'displacement control: 3 problems x 2 load levels x 2 arc lengths x 3 psi; force control: 3 problems x 2 arc lengths x 3 psi; one problem with displacements of 1e-6, 2 arc lengths; 13 step limits and switch steps; last permitted steps ending at 9 load factors between 0.9 and 1.03; all words of 3 steps along or against the previous increment; histories of two runs',
         'thorough': '5 problems x 3 load levels x 4 arc lengths x 4 psi per control; words of 5 steps; step limits 0..12 and switch steps 0..6 with 3 late lengths; histories of two runs'}
ASSUMPTIONS = ['problems are in equilibrium at zero load factor', 'arc lengths are small enough for the direction rule of consecutive steps to be decidable (menu)']


def jobs(tier, seed):
    js = []
    q = tier == 'quick'
    allk = [k for k in arcprob.KINDS if k != 'micro']
    kinds = ['cubic', 'snap', 'coupled'] if q else allk
    for k in kinds:
        for v in ((.4, 1.2) if q else (.2, .4, 1.2)):
            for dl in ((.15, .5) if q else (.07, .15, .3, .5)):
                js.append(dict(kind='grid', prob=k, control='displacement', val=v, dl=[dl], psi=[1., .3, 0.] if q else [1., .3, 0., 2.]))
    for k in (['snap', 'cubic', 'vec'] if q else allk):
        for dl in ((.2, .6) if q else (.1, .2, .4, .6)):
            for psi in ([.5, .1, 0.] if q else [.5, .1, 0., 1.]):
                js.append(dict(kind='grid', prob=k, control='force', val=0., dl=[dl], psi=[psi]))
    # the same path in small units of length
    for dl in ((.2, .6) if q else (.1, .2, .4, .6)):
        for psi in (.1, 0.) if q else (.5, .1, 0., 1.):
            js.append(dict(kind='grid', prob='micro', control='force', val=0., dl=[dl * arcprob.MICRO], psi=[psi * arcprob.MICRO]))
        js.append(dict(kind='grid', prob='micro', control='displacement', val=1.2, dl=[dl * arcprob.MICRO], psi=[1., .3, 0.]))
    for c in ('displacement', 'force'):
        ns = range(0, 7) if q else range(0, 13)
        js.append(dict(kind='limits', prob='snap', control=c, val=.6, ns=list(ns)))
        js.append(dict(kind='twice', prob='snap', control=c, val=.6))
    js.append(dict(kind='switch', prob='snap', control='force', val=0., sw=list(range(0, 4) if q else range(0, 7)), late=[.5] if q else [.5, .1, 1.]))
    for k, c, v in (('cubic', 'displacement', .4), ('cubic', 'force', 0.)) + (() if q else (('coupled', 'displacement', .4), ('vec', 'force', 0.))):
        js.append(dict(kind='near', prob=k, control=c, val=v))
    for k, c, v in (('cubic', 'displacement', .4), ('snap', 'displacement', .6), ('snap', 'force', 0.), ('cubic', 'force', 0.)) + (() if q else (('vec', 'force', 0.), ('coupled', 'displacement', .4))):
        js.append(dict(kind='steps', prob=k, control=c, val=v, depth=3 if q else 5))
    js.append(dict(kind='polish', prob='snap', control='force', val=0.))
    js.append(dict(kind='polish', prob='cubic', control='displacement', val=.6))
    js.sort(key=lambda j: 0 if j['control'] == 'force' or j['prob'] == 'coupled' else 1)
    return js


class World:
    def __init__(self, kind, control, val):
        from jax_fem import solver as S
        self.S, self.control = S, control
        self.unit = arcprob.MICRO if kind == 'micro' else 1.
        self.p, self.r, self.bc, self.form = arcprob.make(kind, control, models.make_problem_class(), val)
        self.iv = models.ref_ivs(self.form, self.r)
        self.m = ref.RefModel.bc_map(self.bc)
        self.d = sorted(self.m)
        self.ub = np.zeros(self.r.n)
        for k, v in self.m.items():
            self.ub[k] = v
        self.q = -self.r.residual(np.zeros(self.r.n), *self.iv)
        self.qm = self.q.copy()
        self.qm[self.d] = 0.
        self.load = self.ub if control == 'displacement' else self.qm

    def res(self, u, lam):
        if self.control == 'displacement':
            return self.r.imposed(u, self.bc, *self.iv, scale=lam)
        return self.r.imposed(u, self.bc, *self.iv) + (1. - lam) * self.qm

    def options(self, o):
        o = dict(o, control=self.control)
        if self.control == 'force':
            q = self.S.get_q_vec(self.p)
            if not ref.close(np.asarray(q), -self.q, 1e-10, 1e-11):
                raise CheckFail('the load vector is not the residual at zero: %s' % ref.diff(np.asarray(q), -self.q))
            o['q_vec_aux'] = -q
        return o


def drive(w, o, ctx, expect=None):
    """Run and check one continuation; returns (solution, info)."""
    log = []
    o = w.options(o)
    psi = o.get('psi', 1. if w.control == 'displacement' else .5)
    limit = o.get('max_continuation_steps', 600 if w.control == 'displacement' else 500)
    o['step_callback'] = lambda s, u, lam: log.append((s, np.array(u), float(lam)))
    o['return_info'] = True
    o.setdefault('linear', {'spsolve_solver': {}})
    out = w.S.solver(w.p, {'arc_length': o})
    if not (isinstance(out, tuple) and len(out) == 2):
        raise CheckFail('no information record returned')
    sol, info = models.flat(out[0]), out[1]
    h = info['history']
    if len(h) != len(log):
        raise CheckFail('%d history records, %d callbacks' % (len(h), len(log)))
    if len(h) > limit:
        raise CheckFail('%d steps, limit %d' % (len(h), limit))
    pu, pl, pd = np.zeros(w.r.n), 0., None
    L2 = np.sum(w.load ** 2)
    for k, (rec, cb) in enumerate(zip(h, log)):
        if rec['step'] != k or cb[0] != k or rec['lam'] != cb[2] or not np.array_equal(rec['u'], cb[1]):
            raise CheckFail('record %d disagrees with its callback: step %s/%s, load factor %r/%r' % (k, rec['step'], cb[0], rec['lam'], cb[2]))
        u, lam = np.asarray(rec['u']), rec['lam']
        R = np.linalg.norm(w.res(u, lam))
        if not R <= 3e-6:
            raise CheckFail('step %d is not in equilibrium at its load factor %g: residual %g' % (k, lam, R))
        dl = o.get('Delta_l', .1)
        if w.control == 'force' and k >= o.get('Delta_l_switch_step', 200):
            dl = o.get('Delta_l_late', 1.)
        got = np.sqrt(np.sum((u - pu) ** 2) + psi ** 2 * (lam - pl) ** 2 * L2)
        if not abs(got - dl) <= 1e-7 * max(w.unit, dl):
            raise CheckFail('step %d advances by %.12g, requested arc length %g' % (k, got, dl))
        if pd is None:
            if lam <= 0.:
                raise CheckFail('the first step goes to the load factor %g' % lam)
        else:
            dot = np.sum(pd[0] * (u - pu)) + psi ** 2 * pd[1] * (lam - pl) * L2
            if dot <= 0.:
                raise CheckFail('step %d turns back (product of consecutive increments %g)' % (k, dot))
        pd = (u - pu, lam - pl)
        pu, pl = u, lam
        if lam >= 1. and k != len(h) - 1:
            raise CheckFail('continues after full load at step %d' % k)
        ctx.add(states=1, transitions=1)
    if len(h) < limit and pl < 1.:
        raise CheckFail('stopped after %d of %d steps at load factor %g' % (len(h), limit, pl))
    if info['lam'] != pl or info['control'] != w.control or info['lambda_target'] != 1.:
        raise CheckFail('information record %s, last load factor %g' % ({k: v for k, v in info.items() if k != 'history'}, pl))
    if bool(info['polished']) != (pl >= 1.):
        raise CheckFail('polished is %s at the load factor %g' % (info['polished'], pl))
    if pl >= 1.:
        R = w.r.imposed(sol, w.bc, *w.iv)
        tol = o.get('newton', {}).get('tol', 1e-6)
        start = np.linalg.norm(w.r.imposed(pu, w.bc, *w.iv))
        if not (np.linalg.norm(R) <= tol * (1 + 1e-6) or np.linalg.norm(R) <= o.get('newton', {}).get('rel_tol', 1e-8) * start):
            raise CheckFail('full load reached but the returned solution has residual %g (tolerance %g)' % (np.linalg.norm(R), tol))
        ctx.outcome('full load')
    else:
        if not np.array_equal(sol, pu):
            raise CheckFail('full load not reached, but the returned solution is not the last step: %s' % ref.diff(sol, pu))
        ctx.outcome('partial load')
    lams = [0.] + [x['lam'] for x in h]
    if any(b < a for a, b in zip(lams, lams[1:])):
        ctx.outcome('path with decreasing load factor')
    ctx.add(traces=1)
    return sol, info


def steps(w, word, psi, ctx):
    """the step functions themselves: forward, then along (1) or against (-1) the previous increment, with alternating lengths"""
    import jax.numpy as jnp
    z = jnp.zeros(w.r.n)
    u, lam, du, dl = z, 0., z, 0.
    L2 = np.sum(w.load ** 2)
    q = (-w.S.get_q_vec(w.p),) if w.control == 'force' else ()
    f = w.S.arc_length_solver_force_driven if q else w.S.arc_length_solver_disp_driven
    path = []
    for k, s in enumerate((1,) + tuple(word)):
        length = (.2, .15)[k % 2]
        du, dl = s * du, s * dl
        u1, l1, du1, dl1 = f(w.p, u, lam, du, dl, *q, length, psi)
        if not np.linalg.norm(w.res(np.asarray(u1), float(l1))) <= 3e-6:
            raise CheckFail('step %d is not in equilibrium' % k)
        if not (np.allclose(du1, u1 - u, rtol=0., atol=1e-12) and abs(dl1 - (l1 - lam)) < 1e-12):
            raise CheckFail('the returned increment of step %d is not that of the step' % k)
        got = np.sqrt(np.sum(np.asarray(du1) ** 2) + psi ** 2 * float(dl1) ** 2 * L2)
        if not abs(got - length) <= 1e-7:
            raise CheckFail('step %d (load factor %+.3g) advances by %.12g, requested %g' % (k, float(dl1), got, length))
        if k and not np.sum(np.asarray(du) * np.asarray(du1)) + psi ** 2 * float(dl * dl1) * L2 > 0.:
            raise CheckFail('step %d turns against the given direction' % k)
        u, lam, du, dl = u1, l1, du1, dl1
        path.append('%.3f' % float(lam))
        ctx.add(states=1, transitions=1)
    ctx.add(traces=1)
    return ' '.join(path)


def run(job, ctx):
    w = World(job['prob'], job['control'], job['val'])
    if job['kind'] == 'grid':
        for dl, psi in itertools.product(job['dl'], job['psi']):
            ctx.case(['grid', job['val'], dl, psi], lambda: '%d steps' % len(drive(w, dict(Delta_l=dl, psi=psi, max_continuation_steps=60), ctx)[1]['history']), timeout=300)
    elif job['kind'] == 'steps':
        for word in itertools.product((1, -1), repeat=job['depth']):
            for psi in (1., .3):
                ctx.case(['steps', word, psi], lambda: steps(w, word, psi, ctx), timeout=120)
    elif job['kind'] == 'limits':
        for n in job['ns']:
            for dl in (.1, .3, 1.):
                ctx.case(['limits', n, dl], lambda: drive(w, dict(Delta_l=dl, max_continuation_steps=n), ctx)[1]['lam'], nontrivial=n > 0)
    elif job['kind'] == 'near':
        # the last permitted step ends just below or just above full load
        n = 3
        end = lambda dl: drive(w, dict(Delta_l=dl, max_continuation_steps=n), ctx)[1]['history'][-1]['lam']
        for target in (.9, .97, .994, .996, .9996, .99996, 1.00004, 1.004, 1.03):
            def f():
                a, b = .02, .04
                fa, fb = end(a), end(b)
                for _ in range(40):
                    if abs(fb - target) < 2e-6 * target:
                        break
                    c = b + (target - fb) * (b - a) / (fb - fa)
                    a, fa, b, fb = b, fb, min(c, 3. * b), None
                    fb = end(b)
                else:
                    raise RuntimeError('no arc length found')
                lam = drive(w, dict(Delta_l=b, max_continuation_steps=n), ctx)[1]['lam']
                ctx.outcome('ends below' if lam < 1. else 'ends above')
                return lam
            ctx.case(['near', target], f, timeout=200)
    elif job['kind'] == 'switch':
        for sw, late in itertools.product(job['sw'], job['late']):
            ctx.case(['switch', sw, late], lambda: drive(w, dict(Delta_l=.2, Delta_l_late=late, Delta_l_switch_step=sw, max_continuation_steps=60), ctx)[1]['lam'])
    elif job['kind'] == 'polish':
        for newton in ({}, {'tol': 1e-8, 'rel_tol': 1e-15}, {'tol': 1e-3}, {'line_search_flag': True}, {'initial_guess': 'far'}):
            for lin in ({'spsolve_solver': {}}, {}, {'petsc_solver': {'ksp_type': 'gmres', 'pc_type': 'jacobi'}}):
                def f():
                    nw = dict(newton)
                    if 'initial_guess' in nw:  # the polish starts from the path, whatever guess the block contains
                        nw['initial_guess'] = models.split_list(w.p, 5. * np.cos(np.arange(w.r.n)))
                    sol, info = drive(w, dict(Delta_l=.6, newton=nw, linear=lin, max_continuation_steps=60), ctx)
                    d = np.abs(sol - info['history'][-1]['u']).max()
                    if d > 1.:
                        raise CheckFail('the polished solution left the path: distance %g from the last step' % d)
                    return d
                ctx.case(['polish', sorted(newton), sorted(lin)], f)
    else:
        for first in ('arc', 'newton', 'short', 'update'):
            def f():
                ref_run = drive(w, dict(Delta_l=.4, max_continuation_steps=60), ctx)
                if first == 'arc':
                    pass
                elif first == 'newton':
                    try:
                        w.S.solver(w.p, {'newton': {'linear': {'spsolve_solver': {}}}})
                    except AssertionError:
                        pass
                elif first == 'short':
                    drive(w, dict(Delta_l=.1, max_continuation_steps=3), ctx)
                else:
                    w.p.newton_update(models.split_list(w.p, models.state(w.r.n, 1)))
                again = drive(w, dict(Delta_l=.4, max_continuation_steps=60), ctx)
                a, b = ref_run[1]['history'], again[1]['history']
                if len(a) != len(b) or any(not ref.close(x['u'], y['u'], 1e-7, 1e-8) for x, y in zip(a, b)) or not ref.close(ref_run[0], again[0], 1e-6, 1e-7):
                    raise CheckFail('a repeated continuation takes another path')
            ctx.case(['twice', first], f)
