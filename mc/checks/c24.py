"""C24: crystal plasticity.  Every load history of the bounded alphabet, for every orientation of the menu, runs through the real state update, stress and
assembled forces (one cell per history); the constitutive equations are evaluated independently on what the code returned."""
import itertools
import numpy as np
from mc import ref, meshes, apps
from mc.core import CheckFail
from mc.checks.c23 import _rot, _sh

LEVEL = 'model_checking'
RULE = ('one case per (load history, orientation): after every step the stress recovered from the returned first Piola stress satisfies S = C:E(Fe) for the returned Fp, the returned slips the flow rule, the resistances the hardening law, '
        'Fp the slip update, det Fp its bound; equality over the 24 cubic symmetries, rotation with crystal and load, and under superposed rotations; per state the stress derivative against implicit differentiation of the model; '
        'histories of converged solves and of changed time steps; non-trivial: some slip system is active')
BOUND = {'quick': 'all sequences of 2 increments over 8 increments x 24 cubic + 6 generic orientations (three of them from resistances that differ between the systems, some beyond saturation); 2 x 2 superposed rotations; tangents at every end state of 6 orientations; solver histories of length 2 over 3 load levels x 2 time steps (for 2 crystal pairs with the step constant along a history, for a third also with changing steps, 4 histories)',
         'thorough': 'all sequences of 3 increments, all tangents; solver histories of length 3'}
ASSUMPTIONS = ['documented material constants', 'increments for which the local Newton iteration converges (up to 1.5 % strain per step)', 'the time step is constant up to round-off between changes the user makes through problem.dt']
C11, C12, C44 = 1.684e5, 1.214e5, .754e5
G0, GS, H0, A, AO, XM = 60.8, 109.8, 541.5, 2.5, .001, .1
_n = [(1, 1, -1), (1, -1, -1), (1, -1, 1), (1, 1, 1)]
SLIP = [(np.array(d, float), np.array(n, float)) for n in _n for d in
        [d for d in itertools.product([-1, 0, 1], repeat=3) if sum(abs(x) for x in d) == 2 and np.dot(d, n) == 0 and d > tuple(-x for x in d)]]
INC = {'t': np.diag([1.002, .9991, .9991]), 'T': np.diag([1.012, .9945, .9945]), 's': _sh(0, 1, .004), 'r': _sh(0, 1, -.004), 'v': 1.002 * np.eye(3), 'R': _rot([1, 2, -1], .4),
       'z': np.eye(3), 'm': np.diag([.998, 1.001, 1.]) @ _sh(2, 0, .003)}
HG = {'t': 2e-4, 's': -3e-4, 'm': 2e-4}


def quat(Q):
    """Unit quaternion of a rotation matrix."""
    K = np.array([[Q[0, 0] + Q[1, 1] + Q[2, 2], Q[2, 1] - Q[1, 2], Q[0, 2] - Q[2, 0], Q[1, 0] - Q[0, 1]],
                  [Q[2, 1] - Q[1, 2], Q[0, 0] - Q[1, 1] - Q[2, 2], Q[0, 1] + Q[1, 0], Q[0, 2] + Q[2, 0]],
                  [Q[0, 2] - Q[2, 0], Q[0, 1] + Q[1, 0], Q[1, 1] - Q[0, 0] - Q[2, 2], Q[1, 2] + Q[2, 1]],
                  [Q[1, 0] - Q[0, 1], Q[0, 2] + Q[2, 0], Q[1, 2] + Q[2, 1], Q[2, 2] - Q[0, 0] - Q[1, 1]]]) / 3.
    w, v = np.linalg.eigh(K)
    return v[:, -1]


def cubic():
    out = []
    for p in itertools.permutations(range(3)):
        for s in itertools.product([1., -1.], repeat=3):
            M = np.zeros((3, 3))
            for i in range(3):
                M[i, p[i]] = s[i]
            if np.linalg.det(M) > 0:
                out.append(M)
    return out


CUB = cubic()
GEN = [np.eye(3), _rot([1, 2, 3], .8), _rot([1, 0, 0], np.pi / 4), _rot([1, 1, 1], .6), _rot([-1, 2, .5], 2.2), _rot([0, 1, 1], 3.)]


def jobs(tier, seed):
    q = tier == 'quick'
    js = []
    d = 2 if q else 3
    for g in range(len(GEN)):
        js.append(dict(kind='material', gen=g, depth=d, dt=.05 if g % 2 == 0 else .5))
    for k in range(4):
        js.append(dict(kind='cubic', gen=k % 3 + 1, part=k, depth=d))
    for g in range(len(GEN)) if not q else (0, 1, 4):
        js.append(dict(kind='rotate', gen=g, depth=d))
    js += [dict(kind='quaternions')] + [dict(kind='solver', gen=g, depth=d, changes=2 if not q else int(g == 1)) for g in (0, 1, 4)]
    js.sort(key=lambda j: 0 if j['kind'] == 'solver' else 1)
    return js


# ---------------------------------------------------------------- independent constitutive relations
def elastic(R):
    I = np.eye(3)
    C = C12 * np.einsum('ij,kl->ijkl', I, I) + C44 * (np.einsum('ik,jl->ijkl', I, I) + np.einsum('il,jk->ijkl', I, I))
    for a in range(3):
        C[a, a, a, a] += C11 - C12 - 2 * C44
    return np.einsum('ia,jb,kc,ld,abcd->ijkl', R, R, R, R, C)


def schmid(R):
    return np.array([np.outer(R @ d, R @ n) / np.linalg.norm(d) / np.linalg.norm(n) for d, n in SLIP])


def slips(S, P, g, dt):
    tau = np.einsum('ij,aij->a', S, P)
    return AO * dt * (tau / g) * ((tau / g) ** 2) ** ((1. / XM - 1.) / 2.)


def canon(real_schmid, P):
    """Signs and positions of our slip systems in the real list (systems are defined up to the sign of direction and normal)."""
    idx, sg = [], []
    for p in P:
        d = [(np.abs(r - s * p).max(), i, s) for i, r in enumerate(real_schmid) for s in (1., -1.)]
        e, i, s = min(d)
        if not e <= 1e-9:
            raise CheckFail('no slip system of the code equals the {111}<110> system %s' % p.tolist())
        idx.append(i)
        sg.append(s)
    if len(set(idx)) != 12 or len(real_schmid) != 12:
        raise CheckFail('slip systems of the code are not the twelve {111}<110> systems')
    return np.array(idx), np.array(sg)


class Runner:
    def __init__(self, mod, hs, ors, dt):
        import jax.numpy as jnp
        from jax_fem.generate_mesh import Mesh
        self.e = ref.ELE['HEX8']
        self.base = self.e['nodes'] @ np.array([[1.1, .1, 0.], [-.2, .9, .1], [.05, 0., 1.2]]).T
        self.hs, self.ors = hs, ors
        self.n = n = len(hs)
        pts = np.concatenate([self.base + [2. * k, 0., 0.] for k in range(n)])
        cells = np.arange(8 * n).reshape(n, 8)
        uniq = []
        inds = []
        for R in ors:
            for i, U in enumerate(uniq):
                if U is R:
                    inds.append(i)
                    break
            else:
                uniq.append(R)
                inds.append(len(uniq) - 1)
        self.p = mod.CrystalPlasticity(Mesh(pts, cells, ele_type='HEX8'), vec=3, dim=3, ele_type='HEX8', additional_info=(np.array([quat(R) for R in uniq]), np.array(inds)))
        self.p.dt = dt
        self.dt = dt
        self.geo = ref.Space('HEX8', pts, cells, 3).geometry()
        self.hg = np.prod(2. * self.e['nodes'] - 1., axis=1)[:, None] * np.array([1., -.5, .3])

    def motion(self, h, k, pre=None, post=None, Q=None):
        """pre, post: conjugation of the load by a rotation; Q: superposed rotation."""
        F, w = np.eye(3), 0.
        for a in h[:k + 1]:
            F = INC[a] @ F
            w += HG.get(a, 0.)
        x = self.base @ F.T + w * self.hg @ F.T
        if Q is not None:
            x = x @ Q.T
        return x - self.base

    def F(self, u):
        return np.eye(3) + np.einsum('cni,cqnj->cqij', u.reshape(self.n, 8, 3), self.geo['G'])

    def sweep(self, depth, us, spread=False):
        import jax.numpy as jnp
        iv = self.p.internal_vars
        if spread:   # hardened differently on every system, some beyond saturation
            s = np.arange(12)
            iv = [iv[0], np.asarray(iv[1]) + 9. * s + 5. * (np.arange(8)[:, None] % 3), np.asarray(iv[2]) + 1e-3 * s * (-1.) ** s, iv[3]]
        out = []
        for k in range(depth):
            u = us(k)
            self.p.set_params(iv)
            r = np.asarray(self.p.compute_residual([jnp.asarray(u)])[0]).reshape(self.n, 8, 3)
            sig = np.asarray(self.p.compute_avg_stress(jnp.asarray(u), iv))
            old = [np.asarray(a) for a in iv]
            iv = self.p.update_int_vars_gp(jnp.asarray(u), iv)
            out.append(dict(u=u, F=self.F(u), r=r, sig=sig, old=old, new=[np.asarray(a) for a in iv]))
        return out


def certify(o, i, R, dt, geo, w):
    """All constitutive equations at the 8 quadrature points of cell i after one step."""
    F = o['F'][i]
    Fpo, go, so, rm = [a[i] for a in o['old']]
    Fpn, gn, sn, rn = [a[i] for a in o['new']]
    for a in (Fpn, gn, sn, rn, o['r'][i], o['sig'][i]):
        if not np.all(np.isfinite(a)):
            raise CheckFail('non-finite result' + w)
    if not np.allclose(rn, R, atol=1e-12) or not np.allclose(rm, R, atol=1e-12):
        raise CheckFail('rotation matrix of the crystal is not its orientation' + w)
    C, P = elastic(R), schmid(R)
    idx, sg = o['canon']
    Ss = []
    act = 0.
    for q in range(8):
        Fe = F[q] @ Fpn[q]
        S = np.einsum('ijkl,kl->ij', C, .5 * (Fe.T @ Fe - np.eye(3)))
        Ss.append(S)
        gam = slips(S, P, go[q][idx], dt)
        dg = (sn[q] - so[q])[idx] * sg
        act = max(act, np.abs(gam).max())
        # S is known from Fe to about 1e-7 MPa: the flow rule amplifies relative errors by 1/m
        tau = np.einsum('ij,aij->a', S, P)
        tol = 1e-10 + 20. * np.abs(gam) * 2e-6 / np.maximum(np.abs(tau), 1e-3)
        if not np.all(np.abs(dg - gam) <= tol):
            raise CheckFail('slip increments %s differ from the flow rule %s at the stress of the elastic law%s' % (dg.tolist(), gam.tolist(), w))
        t = np.abs(gam) * H0 * np.abs(1. - go[q][idx] / GS) ** A * np.sign(1. - go[q][idx] / GS)
        if not np.abs((gn[q] - go[q])[idx] - t.sum()).max() <= 1e-6 + 1e-4 * abs(t.sum()):
            raise CheckFail('resistance increments %s, hardening law %g%s' % ((gn[q] - go[q]).tolist(), t.sum(), w))
        want = Fpo[q] @ (np.eye(3) - np.einsum('a,aij->ij', dg, P))
        if not np.abs(Fpn[q] - want).max() <= 1e-10:
            raise CheckFail('inverse plastic deformation is not the old one times (1 - sum of slips)%s' % w)
        if not abs(np.linalg.det(Fpn[q]) / np.linalg.det(Fpo[q]) - 1.) <= 3. * np.abs(dg).sum() ** 2 + 1e-12:
            raise CheckFail('plastic flow changes the volume by %g with total slip %g%s' % (np.linalg.det(Fpn[q]) / np.linalg.det(Fpo[q]) - 1., np.abs(dg).sum(), w))
    Ss = np.array(Ss)
    Fe = F @ Fpn
    sig = Fe @ Ss @ np.swapaxes(Fe, 1, 2) / np.linalg.det(Fe)[:, None, None]
    W = geo['W'][i]
    avg = np.einsum('qij,q->ij', sig, W) / W.sum()
    if not ref.close(o['sig'][i], avg, 1e-6, 1e-4):
        raise CheckFail('average Cauchy stress%s: %s' % (w, ref.diff(o['sig'][i], avg)))
    Pk = np.linalg.det(F)[:, None, None] * sig @ np.swapaxes(np.linalg.inv(F), 1, 2)
    f = np.einsum('qij,qnj,q->ni', Pk, geo['G'][i], W)
    if not ref.close(o['r'][i], f, 1e-6, 1e-4):
        raise CheckFail('nodal forces%s: %s' % (w, ref.diff(o['r'][i], f)))
    return act


def run(job, ctx):
    mod = apps.load(ctx, 'crystal_plasticity', 'models')
    globals()[{'material': 'material', 'cubic': 'cubic_sym', 'rotate': 'rotate', 'quaternions': 'quaternions', 'solver': 'solver_hist'}[job['kind']]](job, ctx, mod)


def words(depth):
    return [''.join(t) for t in itertools.product(INC, repeat=depth)]


BOX = []


def prepared(ctx, key, fn, timeout=150):
    del BOX[:]
    if ctx.case(key, lambda: [BOX.append(fn()), 'prepared'][1], nontrivial=False, timeout=timeout) is None:
        return None
    return BOX[0]


def material(job, ctx, mod):
    import jax
    import jax.numpy as jnp
    hs = words(job['depth'])
    R = GEN[job['gen']]

    def build():
        r = Runner(mod, hs, [R] * len(hs), job['dt'])
        cn = canon(np.asarray(r.p.Schmid_tensors), schmid(np.eye(3)))
        out = r.sweep(job['depth'], lambda k: np.concatenate([r.motion(h, k) for h in hs]), spread=job['gen'] % 2 == 1)
        for o in out:
            o['canon'] = cn
        return r, out
    got = prepared(ctx, ['sweep', job], build)
    if got is None:
        return
    r, out = got
    acts = {}

    def one(i):
        a = 0.
        for k in range(job['depth']):
            a = max(a, certify(out[k], i, R, job['dt'], r.geo, ' in step %d of history %s' % (k, hs[i])))
        acts[i] = a
        return 'max slip %.3g' % a
    for i, h in enumerate(hs):
        ctx.case(['history', job['gen'], h], lambda: one(i), nontrivial=any(a not in 'Rz' for a in h))
        ctx.outcome('slips' if acts.get(i, 0) > 1e-6 else 'elastic')
        ctx.add(states=8 * job['depth'], transitions=8 * job['depth'], traces=1)
    # tangent: derivative of the first Piola stress at every end state, quadrature point 0
    last = out[-1]
    tm = r.p.get_tensor_map()

    def tang():
        f = lambda F, *iv: jax.jacfwd(tm)(F - jnp.eye(3), *iv)
        return np.asarray(jax.jit(jax.vmap(f))(jnp.asarray(last['F'][:, 0]), *[jnp.asarray(a[:, 0]) for a in last['old']]))
    T = prepared(ctx, ['tangents', job], tang)
    if T is None:
        return
    C, P = elastic(R), schmid(R)
    idx, sg = canon(np.asarray(r.p.Schmid_tensors), schmid(np.eye(3)))

    def tan(i):
        F, Fpo, go = last['F'][i, 0], last['old'][0][i, 0], last['old'][1][i, 0][idx]
        Fpn = last['new'][0][i, 0]
        Fe = F @ Fpn
        S0 = np.einsum('ijkl,kl->ij', C, .5 * (Fe.T @ Fe - np.eye(3)))

        def res(F, S):
            Fe = F @ Fpo @ (np.eye(3) - np.einsum('a,aij->ij', slips(S, P, go, job['dt']), P))
            return S - np.einsum('ijkl,kl->ij', C, .5 * (Fe.T @ Fe - np.eye(3)))

        def pk(F, S):
            Fe = F @ Fpo @ (np.eye(3) - np.einsum('a,aij->ij', slips(S, P, go, job['dt']), P))
            return np.linalg.det(F) / np.linalg.det(Fe) * Fe @ S @ Fe.T @ np.linalg.inv(F).T
        E = np.eye(9).reshape(9, 3, 3) * 1e-30j
        rS = np.array([(res(F + 0j, S0 + e).imag / 1e-30).reshape(-1) for e in E]).T
        want = np.zeros((3, 3, 3, 3))
        for m, e in enumerate(E):
            b = (res(F + e, S0 + 0j).imag / 1e-30).reshape(-1)
            dS = -np.linalg.solve(rS, b).reshape(3, 3)
            want[:, :, m // 3, m % 3] = pk(F + e, S0 + 1e-30j * dS).imag / 1e-30
        if not ref.close(T[i], want, 2e-5, 1e-2):
            raise CheckFail('derivative of the stress after history %s: %s' % (hs[i], ref.diff(T[i], want)))
        return 'norm %.4g' % np.linalg.norm(want)
    for i, h in enumerate(hs):
        ctx.case(['tangent', job['gen'], h], lambda: tan(i))


def cubic_sym(job, ctx, mod):
    """Orientations equivalent under the cubic group give the same stress, slip sums and plastic deformation."""
    hs0 = words(job['depth'])[job['part']::4]
    R = GEN[job['gen']]
    ors = [R @ c for c in CUB]
    hs = [h for h in hs0 for _ in ors]

    def build():
        r = Runner(mod, hs, ors * len(hs0), .05)
        return r, r.sweep(job['depth'], lambda k: np.concatenate([r.motion(h, k) for h in hs]))
    got = prepared(ctx, ['sweep', job], build)
    if got is None:
        return
    r, out = got
    cn = canon(np.asarray(r.p.Schmid_tensors), schmid(np.eye(3)))
    for j, h in enumerate(hs0):
        for c in range(24):
            def f():
                for k, o in enumerate(out):
                    o['canon'] = cn
                    w = ' with cubic symmetry %d in step %d of history %s' % (c, k, h)
                    certify(o, j * 24 + c, ors[c], .05, r.geo, w)
                    a, b = j * 24, j * 24 + c
                    for what, x, tol in (('nodal forces', o['r'], 1e-4), ('stress', o['sig'], 1e-4), ('inverse plastic deformation', o['new'][0], 1e-9), ('summed slip', np.abs(o['new'][2]).sum(-1), 1e-9), ('resistance', np.sort(o['new'][1], -1), 1e-6)):
                        if not ref.close(x[b], x[a], 1e-6, tol):
                            raise CheckFail('%s%s differs from the equivalent orientation: %s' % (what, w, ref.diff(x[b], x[a])))
                return 'ok'
            ctx.case(['cubic', h, c], f, nontrivial=c > 0)
    ctx.add(states=len(hs) * 8, transitions=len(hs) * 8 * job['depth'], traces=len(hs))


def rotate(job, ctx, mod):
    """Superposed rotations rotate the stress; rotating crystal and load together rotates everything."""
    hs = words(job['depth'])
    R = GEN[job['gen']]
    n = len(hs)
    base = prepared(ctx, ['base', job], lambda: (lambda r: (r, r.sweep(job['depth'], lambda k: np.concatenate([r.motion(h, k) for h in hs]))))(Runner(mod, hs, [R] * n, .05)))
    if base is None:
        return
    r0, o0 = base
    for m, Q in enumerate((_rot([1, 2, -1], .9), _rot([0, 0, 1], np.pi / 2), _rot([-1, .3, 1], 2.7))):
        o1 = prepared(ctx, ['superposed', job, m], lambda: Runner(mod, hs, [R] * n, .05).sweep(job['depth'], lambda k: np.concatenate([r0.motion(h, k, Q=Q) for h in hs])))

        def both():
            r = Runner(mod, hs, [Q @ R] * n, .05)
            pts = np.concatenate([r.base @ Q.T for _ in range(n)])
            from jax_fem.generate_mesh import Mesh
            p = mod.CrystalPlasticity(Mesh(pts, np.arange(8 * n).reshape(n, 8), ele_type='HEX8'), vec=3, dim=3, ele_type='HEX8', additional_info=(quat(Q @ R)[None], np.zeros(n, int)))
            p.dt = .05
            r.p = p
            return r.sweep(job['depth'], lambda k: np.concatenate([r0.motion(h, k) @ Q.T for h in hs]))
        o2 = prepared(ctx, ['conjugated', job, m], both)
        for i, h in enumerate(hs):
            def f():
                for k in range(job['depth']):
                    for label, o, fp in (('superposed rotation', o1, lambda x: x), ('rotated crystal and load', o2, lambda x: Q @ x @ Q.T)):
                        if o is None:
                            continue
                        a, b = o[k], o0[k]
                        for what, x, y, tol in (('stress', a['sig'][i], Q @ b['sig'][i] @ Q.T, 1e-4), ('nodal forces', a['r'][i], b['r'][i] @ Q.T, 1e-4), ('inverse plastic deformation', a['new'][0][i], fp(b['new'][0][i]), 1e-8),
                                                ('slips', a['new'][2][i], b['new'][2][i], 1e-8), ('resistances', a['new'][1][i], b['new'][1][i], 1e-5)):
                            if not ref.close(x, y, 1e-6, tol):
                                raise CheckFail('%s with %s, step %d of history %s: %s' % (what, label, k, h, ref.diff(x, y)))
                return 'ok'
            ctx.case(['rotate', h, m], f)
        ctx.add(transitions=2 * n * 8 * job['depth'], traces=2 * n)


def quaternions(job, ctx, mod):
    import jax.numpy as jnp
    for a in itertools.product([-2, -1, 0, 1, 2], repeat=4):
        if not any(a):
            continue
        q = np.array(a, float)
        q /= np.linalg.norm(q)

        def f():
            M = np.asarray(mod.get_rot_mat(jnp.asarray(q)))
            w, v = q[0], q[1:]
            K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
            want = np.eye(3) + 2. * w * K + 2. * K @ K
            if not np.abs(M - want).max() <= 1e-13:
                raise CheckFail('rotation matrix of %s: %s' % (a, ref.diff(M, want)))
            T = np.sin(1. + np.arange(9.)).reshape(3, 3)
            if not np.abs(np.asarray(mod.rotate_tensor_rank_2(jnp.asarray(want), jnp.asarray(T))) - want @ T @ want.T).max() <= 1e-12:
                raise CheckFail('rotation of a second-order tensor by %s' % (a,))
            T4 = np.sin(1. + np.arange(81.)).reshape(3, 3, 3, 3)
            if not np.abs(np.asarray(mod.rotate_tensor_rank_4(jnp.asarray(want), jnp.asarray(T4))) - np.einsum('ia,jb,kc,ld,abcd->ijkl', want, want, want, want, T4)).max() <= 1e-11:
                raise CheckFail('rotation of a fourth-order tensor by %s' % (a,))
            return 'ok'
        ctx.case(['quaternion', a], f)


def solver_hist(job, ctx, mod):
    """Histories of converged global solves over load levels and time steps: equilibrium of the certified stress, state carried forward."""
    import jax.numpy as jnp
    from jax_fem.generate_mesh import Mesh
    from jax_fem.solver import solver
    pts, cells = meshes.mesh('HEX8', [1, 1, 2])
    zt, zb = np.abs(pts[:, 2] - pts[:, 2].max()) < 1e-9, np.abs(pts[:, 2]) < 1e-9
    pts = pts + .05 * np.sin(3. * pts[:, :1] + 2. * pts[:, 1:2] + 4. * pts[:, 2:]) * (~zt & ~zb)[:, None]
    on = [np.where(zb)[0], np.where(zt)[0], np.where(zb & (pts[:, 0] < 1e-9) & (pts[:, 1] < 1e-9))[0], np.where(zb & (pts[:, 0] > .9) & (pts[:, 1] < 1e-9))[0]]
    spec = [(on[0], 2), (on[1], 2), (on[2], 0), (on[2], 1), (on[3], 1)]
    fixed = np.concatenate([i * 3 + c for i, c in spec])
    sel = lambda i: (lambda p, ind: jnp.isin(ind, i))
    R1, R2 = GEN[job['gen']], GEN[(job['gen'] + 1) % len(GEN)]
    prob = mod.CrystalPlasticity(Mesh(pts, cells, ele_type='HEX8'), vec=3, dim=3, ele_type='HEX8', dirichlet_bc_info=[[sel(i) for i, _ in spec], [c for _, c in spec], [lambda p: 0.] * 5],
                                 additional_info=(np.array([quat(R1), quat(R2)]), np.array([0, 1])))
    iv0 = prob.internal_vars
    geo = ref.Space('HEX8', pts, cells, 3).geometry()
    cn = canon(np.asarray(prob.Schmid_tensors), schmid(np.eye(3)))
    lv, dts = [.001, .003, -.001], [.05, .5]

    def f(seq):
        iv, u, act = iv0, np.zeros((len(pts), 3)), 0.
        for k, (l, d) in enumerate(seq):
            prob.dt = dts[d]
            prob.fes[0].vals_list[1] = jnp.full(len(on[1]), lv[l])
            prob.set_params(iv)
            sol = solver(prob, {'spsolve_solver': {}, 'initial_guess': [jnp.asarray(u)], 'tol': 1e-6, 'rel_tol': 1e-9})
            u = np.asarray(sol[0])
            r = np.asarray(prob.compute_residual(sol)[0]).reshape(-1)
            sig = np.asarray(prob.compute_avg_stress(sol[0], iv))
            old = [np.asarray(a) for a in iv]
            iv = prob.update_int_vars_gp(sol[0], iv)
            new = [np.asarray(a) for a in iv]
            F = np.eye(3) + np.einsum('cni,cqnj->cqij', u[cells], geo['G'])
            fr = np.zeros((2, 8, 3))
            for c, R in enumerate((R1, R2)):
                # forces of the returned state, per cell (assembled below)
                Fe = F[c] @ new[0][c]
                S = np.einsum('ijkl,qkl->qij', elastic(R), .5 * (np.swapaxes(Fe, 1, 2) @ Fe - np.eye(3)))
                sg = Fe @ S @ np.swapaxes(Fe, 1, 2) / np.linalg.det(Fe)[:, None, None]
                Pk = np.linalg.det(F[c])[:, None, None] * sg @ np.swapaxes(np.linalg.inv(F[c]), 1, 2)
                fr[c] = np.einsum('qij,qnj,q->ni', Pk, geo['G'][c], geo['W'][c])
            rr = np.zeros((len(pts), 3))
            np.add.at(rr, cells, fr)
            rr = rr.reshape(-1)
            if not ref.close(r, rr, 1e-6, 1e-4):
                raise CheckFail('step %d of %s: the residual of the converged step is not that of the stored state: %s' % (k, seq, ref.diff(r, rr)))
            free = np.setdiff1d(np.arange(rr.size), fixed)
            if not np.abs(rr[free]).max() <= 1e-4:
                raise CheckFail('step %d of %s: forces out of balance by %g' % (k, seq, np.abs(rr[free]).max()))
            o = dict(F=F, old=old, new=new, r=fr, sig=sig, canon=cn)
            for c, R in enumerate((R1, R2)):
                act = max(act, certify(o, c, R, dts[d], geo, ' in cell %d, step %d of the solves %s' % (c, k, seq)))
        ctx.add(traces=1, transitions=len(seq))
        return 'max slip %.3g' % act
    # One time step per history first, then every history whose steps differ, chained so that one history starts with the step the last ended with.
    n = job['depth']
    loads = list(itertools.product(range(3), repeat=n))
    hist = [(l, (d,) * n) for d in range(2) for l in loads]
    if job['changes']:
        todo = [(l, d) for l in (loads if job['changes'] == 2 else itertools.product((1, 2), repeat=n)) for d in itertools.product(range(2), repeat=n) if len(set(d)) > 1]
        todo = todo if job['changes'] == 2 else todo[::2][:2] + todo[1::2][2:]
        last = 1
        while todo:
            i = next((i for i, h in enumerate(todo) if h[1][0] == last), 0)
            hist.append(todo.pop(i))
            last = hist[-1][1][-1]
    for l, d in hist:
        seq = tuple(zip(l, d))
        ctx.case(['solver', seq], lambda: f(seq), timeout=90)
