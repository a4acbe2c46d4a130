"""C18: one MMA step.  Explicit-state model of the asymptote/move-limit automaton plus the optimality conditions of the convex subproblem;
every model trace (a history of design points, values and gradients) is replayed on the real MMA object."""
import itertools
import numpy as np
from mc import ref
from mc.core import CheckFail

LEVEL = 'model_checking'
RULE = ('one case per history of (design point, objective gradient, constraint values and gradients): after every step the asymptotes equal those of the model, the point respects box, move limit and asymptotes, '
        'and point, multipliers and slacks satisfy the optimality conditions of the documented convex approximation; for one and two variables the objective is compared with an exhaustive grid; '
        'non-trivial: at least one step')
BOUND = {'quick': 'n, m up to 3 (and n=6): all closed-loop histories of length 4 over 4 gradient patterns for 15 (n, m) pairs; all histories of 4 free design points on a 4-value grid (n=1) and length 4 over 6 points (n=2) x 2 patterns; 4 scaling sets x 3 boxes x 3 move limits; 144 histories of 18-21 monotone and oscillating steps',
         'thorough': 'closed-loop length 6, free histories of length 6 (n=1) and 5 (n=2), n up to 8, m up to 4'}
ASSUMPTIONS = ['xmin < xmax in every component', 'design points lie inside the box', 'optimality conditions to 5e-6, 3e-3 for extreme scales (the interior point method stops at 1e-7) plus 1e-10 of the largest multiplier or gradient']
NEEDS_JAX_FEM = True
# (a0, a, c, d)
SCAL = [(1., 0., 1e4, 0.), (1., 0., 1e3, 1.), (1., 1., 1e3, 1.), (2., .5, 50., .1)]
BOXES = [(0., 1.), (-1., 3.), (.2, .7)]
MOVES = [.2, .5, 1.]


def jobs(tier, seed):
    q = tier == 'quick'
    js = []
    for n, m in [(1, 1), (1, 2), (1, 3), (2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (3, 3), (6, 1), (6, 2), (4, 3), (3, 4), (2, 4), (1, 4)] + ([] if q else [(8, 1), (8, 4), (5, 5), (4, 4), (6, 4)]):
        js.append(dict(kind='loop', n=n, m=m, depth=4 if q else 6, scal=0, box=0, move=0))
    for s, b, v in itertools.product(range(4), range(3), range(3)):
        js.append(dict(kind='loop', n=2, m=1 + (s + b + v) % 3, depth=3 if q else 4, scal=s, box=b, move=v))
    for a in range(4):
        js.append(dict(kind='free', n=1, m=1, pre=[a], depth=4 if q else 6, scal=a % 2, box=0, move=a % 3))
    for a in range(6):
        js.append(dict(kind='free', n=2, m=1, pre=[a], depth=4 if q else 5, scal=a % 4, box=a % 3, move=(a + 1) % 3))
    # long histories: monotone and alternating stretches, so that the asymptotes reach both of their limits
    for n in (1, 2):
        js += [dict(kind='stretch', n=n, m=1, scal=0, box=b, move=0, runs=list(rn)) for b in range(3) for rn in ([(18,), (9, 12), (1, 19)] if q else [(40,), (9, 30), (1, 30), (20, 20), (3, 3, 20), (30, 1, 30)])]
    js = [dict(kind='extreme', n=n, m=m) for n in (1, 2, 3, 5) for m in (1, 2, 3, 5)] + js
    return js


# ------------------------------------------------------------------ the model
class Model:
    """State: epoch, previous two points, asymptotes.  Documented rule (Svanberg 1987): initial distance half the box for the first
    two registered iterations, afterwards factor 1.2 / 0.7 / 1 by the sign of successive changes, clipped to [0.01, 10] of the box."""

    def __init__(self, xmin, xmax, move):
        self.xmin, self.xmax, self.move = xmin, xmax, move
        self.epoch = 0

    def register(self, x1, x2):
        self.epoch += 1
        self.x1, self.x2 = x1, x2

    def step(self, x):
        r = self.xmax - self.xmin
        if self.epoch <= 2:
            low, upp = x - .5 * r, x + .5 * r
        else:
            low, upp = np.empty_like(x), np.empty_like(x)
            for j in range(len(x)):
                t = (x[j] - self.x1[j]) * (self.x1[j] - self.x2[j])
                g = 1.2 if t > 0 else .7 if t < 0 else 1.
                low[j] = min(max(x[j] - g * (self.x1[j] - self.low[j]), x[j] - 10 * r[j]), x[j] - .01 * r[j])
                upp[j] = max(min(x[j] + g * (self.upp[j] - self.x1[j]), x[j] + 10 * r[j]), x[j] + .01 * r[j])
        self.low, self.upp = low, upp
        al = np.maximum.reduce([self.xmin, low + .1 * (x - low), x - self.move * r])
        be = np.minimum.reduce([self.xmax, upp - .1 * (upp - x), x + self.move * r])
        return low, upp, al, be


class Sub:
    """The convex approximation at x: g_i(t) = sum p_ij/(upp-t) + q_ij/(t-low) - b_i."""

    def __init__(self, x, low, upp, r, df0, f, df):
        r = np.maximum(r, 1e-5)

        def pq(g):
            P, Q = np.maximum(g, 0), np.maximum(-g, 0)
            e = .001 * (P + Q) + 1e-5 / r
            return (P + e) * (upp - x) ** 2, (Q + e) * (x - low) ** 2
        self.p0, self.q0 = pq(df0)
        self.P, self.Q = pq(df)
        self.low, self.upp = low, upp
        self.b = (self.P / (upp - x) + self.Q / (x - low)).sum(1) - f

    def val(self, t):
        """objective and constraint left-hand sides at points t (..., n)"""
        u, l = 1. / (self.upp - t), 1. / (t - self.low)
        return u @ self.p0 + l @ self.q0, u @ self.P.T + l @ self.Q.T - self.b

    def grads(self, t):
        u, l = 1. / (self.upp - t) ** 2, 1. / (t - self.low) ** 2
        return self.p0 * u - self.q0 * l, self.P * u - self.Q * l


def kkt(sub, al, be, sol, mult, slack, sc, scale, t):
    """Largest violated optimality condition as text, or None."""
    x, y, z = sol
    lam, xsi, eta, mu, zet = mult
    a0, a, c, d = sc
    g0, G = sub.grads(x)
    f0, g = sub.val(x)
    big = 1 + 1e-4 * max(np.abs(g0).max(), np.abs(lam @ G).max(), np.abs(lam).max(), np.max(c))  # round-off relative to the largest term
    conds = [('stationarity in x', np.abs(g0 + lam @ G - xsi + eta).max() / big), ('stationarity in y', np.abs(c + d * y - mu - lam).max() / big),
             ('stationarity in z', abs(a0 - zet - lam @ a) / big), ('constraint with slack', np.abs(g - a * z - y + slack).max() / scale),
             ('complementarity xsi', np.abs(xsi * (x - al)).max() / big), ('complementarity eta', np.abs(eta * (be - x)).max() / big),
             ('complementarity mu', np.abs(mu * y).max() / big), ('complementarity zet', abs(zet * z) / big), ('complementarity lam', np.abs(lam * slack).max() / big)]
    for nm, v in (('xsi', xsi), ('eta', eta), ('mu', mu), ('lam', lam), ('zet', zet), ('slack', slack), ('y', y), ('z', z)):
        conds.append(('sign of ' + nm, max(0., -np.min(v))))
    for nm, v in conds:
        if not v <= t:
            return '%s violated by %g' % (nm, v)
    return None


class World:
    def __init__(self, n, m, scal, box, move):
        from jax_fem.mma import MMA
        self.n, self.m = n, m
        lo, hi = BOXES[box]
        self.xmin, self.xmax = np.full(n, lo) - .1 * np.arange(n), np.full(n, hi) + .2 * np.arange(n)
        if box == 0:
            self.xmin, self.xmax = np.zeros(n), np.ones(n)
        self.move = MOVES[move]
        a0, a, c, d = SCAL[scal]
        self.sc = (a0, np.full(m, a), np.full(m, c), np.full(m, d))
        self.mk = MMA

    tol = 5e-6

    def start(self, x0):
        M = self.mk()
        M.setNumConstraints(self.m)
        M.setNumDesignVariables(self.n)
        M.setMinandMaxBoundsForDesignVariables(self.xmin[:, None].copy(), self.xmax[:, None].copy())
        a0, a, c, d = self.sc
        M.setScalingParams(a0, a[:, None].copy(), c[:, None].copy(), d[:, None].copy())
        M.setMoveLimit(self.move)
        M.setLowerAndUpperAsymptotes(np.ones((self.n, 1)), np.ones((self.n, 1)))
        mod = Model(self.xmin, self.xmax, self.move)
        x = np.array(x0, float)
        M.registerMMAIter(x[:, None].copy(), x[:, None].copy(), x[:, None].copy())
        mod.register(x, x)
        return M, mod

    def data(self, k, x):
        """gradients and values of pattern k at x (smooth functions where possible, so that histories are consistent)"""
        i, j = np.arange(self.n), np.arange(self.m)
        mid = .5 * (self.xmin + self.xmax)
        r = self.xmax - self.xmin
        A = np.cos(1. + k + 2.3 * np.add.outer(1.7 * j, i))
        df0 = {0: np.cos(2. * i + .3) * 3. + (x - mid) / r, 1: -np.ones(self.n) * .02, 2: 40. * (x - mid - .2 * r * np.sin(i)) / r, 3: np.where(i % 2 == 0, 0., -1e-4)}[k % 4]
        f = {0: (A * (x - mid) / r).sum(1) - .2, 1: np.full(self.m, .4 * (x / r).sum() / self.n - .1), 2: np.full(self.m, .8) - .3 * j, 3: np.full(self.m, -5.)}[k % 4]
        df = {0: A / r, 1: np.ones((self.m, self.n)) * .4 / self.n / r, 2: -A - 1.2, 3: 0. * A}[k % 4]
        return 1.3 + k, df0, f, df

    def step(self, M, mod, x, dat, grid=False):
        """One real step checked against the model. Returns the new point."""
        J, df0, f, df = dat
        args = [np.array([[J]]), df0[:, None].copy(), f[:, None].copy(), df.copy(), x[:, None].copy()]
        keep = [a.copy() for a in args] + [M.xmin.copy(), M.xmax.copy(), M.xold1.copy(), M.xold2.copy()]
        M.setObjectiveWithGradient(args[0], args[1])
        M.setConstraintWithGradient(args[2], args[3])
        M.mmasub(args[4])
        for o, w in zip(args + [M.xmin, M.xmax, M.xold1, M.xold2], keep):
            if not np.array_equal(o, w):
                raise CheckFail('an input array was modified')
        low, upp, al, be = mod.step(x)
        rl, ru = [np.asarray(v) for v in M.getAsymptoteValues()]
        if rl.shape != (self.n, 1) or not ref.close(rl[:, 0], low, 1e-12, 1e-13) or not ref.close(ru[:, 0], upp, 1e-12, 1e-13):
            raise CheckFail('asymptotes %s, %s; the rule gives %s, %s' % (rl[:, 0], ru[:, 0], low, upp))
        xm, ym, zm = [np.asarray(v) for v in M.getOptimalValues()]
        lam, xsi, eta, mu, zet = [np.asarray(v) for v in M.getLagrangeMultipliers()]
        s = np.asarray(M.getSlackValue())
        if xm.shape != (self.n, 1) or lam.shape != (self.m, 1) or s.shape != (self.m, 1) or ym.shape != (self.m, 1):
            raise CheckFail('result shapes %s %s %s' % (xm.shape, lam.shape, s.shape))
        t = xm[:, 0]
        if not np.all(np.isfinite(t)) or np.any(t < al - 1e-12) or np.any(t > be + 1e-12):
            raise CheckFail('the point %s leaves the box, move limit or asymptotes [%s, %s]' % (t, al, be))
        sub = Sub(x, low, upp, self.xmax - self.xmin, df0, f, df)
        gscale = 1. + np.abs(sub.b).max()
        why = kkt(sub, al, be, (t, ym[:, 0], float(zm[0, 0])), (lam[:, 0], xsi[:, 0], eta[:, 0], mu[:, 0], float(zet[0, 0])), s[:, 0], self.sc, gscale, self.tol)
        if why:
            raise CheckFail('%s at x=%s pattern data %s' % (why, x, dat))
        if grid and self.n <= 2 and self.sc[1].max() == 0.:
            ax = [np.linspace(a, b, 401 if self.n == 1 else 41) for a, b in zip(al, be)]
            T = np.stack([g.reshape(-1) for g in np.meshgrid(*ax, indexing='ij')], -1)

            def merit(T):
                f0, g = sub.val(T)
                y = np.maximum(g, 0.)
                return f0 + (self.sc[2] * y + .5 * self.sc[3] * y * y).sum(-1)
            best, mine = merit(T).min(), merit(t[None])[0]
            if mine > best + 1e-4 * (1 + np.abs(best)) and mine > best + 2e-6 * (1. + self.sc[2].max()):
                raise CheckFail('a grid point has subproblem objective %g, the returned point %g' % (best, mine))
        return t


def run(job, ctx):
    if job['kind'] == 'extreme':
        return extreme(ctx, job)
    w = World(job['n'], job['m'], job['scal'], job['box'], job['move'])
    n = w.n
    if job['kind'] == 'loop':
        starts = [w.xmin + (w.xmax - w.xmin) * np.linspace(.3, .6, n), w.xmin + 0. * w.xmin, w.xmax + 0. * w.xmax]
        for s0, word in itertools.product(range(3), itertools.product(range(4), repeat=job['depth'])):
            if s0 and (sum(word) + s0) % 3:  # the corner starts: every third word (all words of the first start)
                continue

            def f():
                M, mod = w.start(starts[s0])
                x, x1 = starts[s0], starts[s0]
                for k in word:
                    x2, x1 = x1, x
                    x = w.step(M, mod, x, w.data(k, x), grid=True)
                    M.registerMMAIter(x[:, None].copy(), x1[:, None].copy(), x2[:, None].copy())
                    mod.register(x1, x2)
                    ctx.add(transitions=1, states=1)
                ctx.add(traces=1)
                return list(x)
            ctx.case(['loop', s0, word], f)
    elif job['kind'] == 'stretch':
        r = w.xmax - w.xmin
        for mode, h in itertools.product(('free', 'closed'), (.05, .004)):
            for start in (0, 1):
                def f():
                    # alternating segments: monotone motion (+h per step), then oscillation (+h, -h, ...)
                    x = w.xmin + .1 * r if start else w.xmin + .5 * r
                    M, mod = w.start(x)
                    x1 = x2 = x
                    lo, hi = [], []
                    for seg, length in enumerate(job['runs']):
                        for k in range(length):
                            t = w.step(M, mod, x, w.data(3 if seg % 2 == 0 else 0, x))
                            x2, x1 = x1, x
                            lo.append(((x - mod.low) / r).max())
                            hi.append(((x - mod.low) / r).min())
                            if mode == 'closed':
                                # the caller takes a shortened step
                                x = x + np.clip(t - x, -h * r, h * r)
                            else:
                                d = h * r * (1. if (seg + start) % 2 == 0 else (-1.) ** k) * (1. - .3 * np.arange(n))
                                x = np.clip(x + d, w.xmin, w.xmax)
                            M.registerMMAIter(x[:, None].copy(), x1[:, None].copy(), x2[:, None].copy())
                            mod.register(x1, x2)
                            ctx.add(transitions=1, states=1)
                    if max(lo) > 9.9:
                        ctx.outcome('widest asymptotes')
                    if min(hi) < .0101:
                        ctx.outcome('narrowest asymptotes')
                    ctx.add(traces=1)
                ctx.case(['stretch', mode, h, start], f)
    else:
        # design points chosen freely (the caller may project or restart)
        r = w.xmax - w.xmin
        if n == 1:
            pts = [w.xmin + r * v for v in (0., .37, .61, 1.)]
        else:
            pts = [w.xmin + r * np.array(v) for v in ((0., 0.), (1., 0.), (.3, .7), (.5, .5), (.7, .3), (1., 1.))]
        for rest in itertools.product(range(len(pts)), repeat=job['depth'] - len(job['pre'])):
            word = job['pre'] + list(rest)
            for pat in (0, 2):
                def f():
                    M, mod = w.start(pts[word[0]])
                    x1 = x2 = pts[word[0]]
                    for t, k in enumerate(word):
                        x = pts[k]
                        w.step(M, mod, x, w.data(pat + t % 2, x))
                        M.registerMMAIter(x[:, None].copy(), x[:, None].copy(), x1[:, None].copy())
                        mod.register(x, x1)
                        # the previous point given to the next step is this one
                        x1 = x
                        ctx.add(transitions=1, states=1)
                    if word[0] == word[-1]:
                        M.resetMMACounter()
                        mod.epoch = 0
                        M.registerMMAIter(x[:, None].copy(), x[:, None].copy(), x[:, None].copy())
                        mod.register(x, x)
                        w.step(M, mod, x, w.data(pat, x))
                    ctx.add(traces=1)
                ctx.case(['free', word, pat], f)


def extreme(ctx, job):
    """Gradient scales, degenerate constraints and infeasible subproblems."""
    for n, m, sc in itertools.product([job['n']], [job['m']], (0, 1, 2)):
        w = World(n, m, sc, 0, 0)
        w.tol = 3e-3
        for e0, e1, fv in itertools.product((1e-6, 1e-3, 1., 1e2), (1e-3, 1., 30.), (-2., 0., .7)):
            def f():
                x = np.full(n, .4) + .1 * np.sin(np.arange(n))
                M, mod = w.start(x)
                i = np.arange(n)
                df0 = e0 * np.cos(1.3 * i + .2)
                df = e1 * np.cos(np.add.outer(2. * np.arange(m), 1.1 * i))
                w.step(M, mod, x, (1., df0, np.full(m, fv), df), grid=True)
                ctx.add(transitions=1, states=1, traces=1)
            ctx.case(['extreme', n, m, sc, e0, e1, fv], f)
