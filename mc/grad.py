"""Differentiable problems with a reference sensitivity (complex steps through the reference model, direct method)."""
import numpy as np
import scipy.sparse as sp
from . import ref, meshes, models
from .checks import c08

LAY = {'vector': (['QUAD4'], [2], 'nl', 'nl', None, [['all', 'load', None], ['x+', 'nl', None]]),
       'coupled': (['QUAD8', 'QUAD4'], [2, 1], None, None, 'nl', [['all', None, 'lin']]),
       'tet': (['TET4'], [3], 'nonsym', 'nl', None, [['y-', 'nl', None]]),
       'tri6': (['TRI6'], [1], 'nl', 'lin', None, [['all', 'nl', None]]),
       'three': (['TRI3', 'TRI3', 'TRI3'], [1, 2, 1], None, None, 'nl', [['all', None, 'nl']]),
       'hex': (['HEX8'], [3], 'nl', 'src', None, [['all', 'lin', None]])}


def _match(mine, theirs, mycell, theircell):
    """index i such that mine.reshape(-1, dim)[i] equals theirs.reshape(-1, dim); points are matched within their cell."""
    nq = mine.shape[1]
    a, b = mine.reshape(-1, mine.shape[-1]), theirs.reshape(-1, theirs.shape[-1])
    if len(b) == 0:
        return np.zeros(0, int)
    d = np.abs(b[:, None] - a[None]).sum(-1) + 1e6 * (np.repeat(theircell, nq)[:, None] != np.repeat(mycell, nq)[None])
    i = d.argmin(1)
    assert len(a) == len(b) and d.min(1).max() < 1e-9 and len(set(i.tolist())) == len(i), 'quadrature points do not match the reference'
    return i


def _take(i, a, x):
    a = np.asarray(a)
    return a.reshape((-1,) + a.shape[2:])[i].reshape(x.shape[:2] + a.shape[2:])


class GradWorld:
    """problem p, reference r, Dirichlet data, optional reduction matrix."""

    def __init__(self, lay, pmat=None, cls=None, affine=True):
        self.lay = lay
        self.cls = cls or models.make_problem_class()
        eles, vecs, T, M, U, surf = LAY[lay]
        dim = ref.ELE[eles[0]]['dim']
        mm = [meshes.mesh(e, [2, 1] if dim == 2 else [1, 1, 1]) for e in eles]
        # face sets refer to the bounding box: keep boxes (only moved and scaled)
        mm = [(p * np.array([1.2, .9, 1.1])[:dim] + np.array([.3, -.4, .2])[:dim], c) for p, c in mm]
        one = len(eles) == 1
        self.form = dict(eles=eles, vecs=vecs, T=T, M=M, U=U, surf=surf, iv=2)
        self.mm = mm
        self.r = models.reference(self.form, mm)
        last = len(eles) - 1
        self.nb = c08.node_bc(mm, vecs, [(0, 0, 0, .3), (0, 1, vecs[0] - 1, -.1)] + ([(last, 0, 0, .1)] if last else []))
        self.p = models.build(self.cls, self.form, mm)
        c08.put_bc(self.p, self.nb)
        self.bcdofs = sorted(ref.RefModel.bc_map(self.nb[1]))
        # internal variables are stored in the problem's own order of quadrature points: maps problem -> reference by coordinates
        cells = np.arange(len(mm[0][1]))
        self.vmap = _match(np.asarray(self.p.physical_quad_points), self.r.geo[0]['x'], cells, cells)
        self.fmap = [_match(np.asarray(x), g[0]['x'], np.asarray(bi)[:, 0], np.array([c for c, _ in f[0]]))
                     for x, g, bi, f in zip(self.p.physical_surface_quad_points, self.r.fgeo, self.p.boundary_inds_list, self.r.surfaces)]
        self.iv0 = [np.asarray(a) for a in self.p.internal_vars]
        self.siv0 = [[np.asarray(a) for a in s] for s in self.p.internal_vars_surfaces]
        self.P = None
        if pmat:
            self.P = pmat(self)
            self.p.P_mat = self.P
        self.base = self.params0()

    # ---- parameters: flat list of numpy arrays with structure (kind, index...)
    def params0(self):
        vals = [[np.asarray(a) for a in v] for _, _, v in self.nb[0]]
        return {'iv': [np.array(a) for a in self.iv0], 'siv': [[np.array(a) for a in s] for s in self.siv0],
                'points': np.array(self.mm[0][0]), 'vals': vals}

    def theta(self, k, kinds=('iv', 'siv', 'points', 'vals')):
        """Deterministic admissible parameter sets: k = 0, 1, 2, ..."""
        p = {q: self.base[q] for q in kinds}
        if k == 0:
            return p

        def mv(a, s, m):
            i = np.arange(a.size).reshape(a.shape)
            return a * (1. + m * .1 * k) + m * .03 * np.sin(s + (1.1 + k) * i)
        out = {}
        if 'iv' in p:
            out['iv'] = [mv(a, j, 1.) for j, a in enumerate(p['iv'])]
        if 'siv' in p:
            out['siv'] = [[mv(a, j + 3 * q, 1.) for j, a in enumerate(s)] for q, s in enumerate(p['siv'])]
        if 'points' in p:
            out['points'] = mv(p['points'], 7., .8)
        if 'vals' in p:
            out['vals'] = [[mv(a, 5. + j, 1.) for j, a in enumerate(v)] for v in p['vals']]
        return out

    # ---- reference
    def cres(self, u, prm):
        """Imposed residual, possibly complex parameters."""
        r = self.r
        iv = [_take(self.vmap, a, r.geo[0]['x']) for a in prm.get('iv', self.iv0)]
        siv = [[_take(m, a, g[0]['x']) for a in s] for s, m, g in zip(prm.get('siv', self.siv0), self.fmap, r.fgeo)]
        if 'points' in prm:
            r.set_points([prm['points']] + [None] * (len(r.spaces) - 1))
        try:
            R = r.residual(u, iv, siv)
        finally:
            if 'points' in prm:
                r.set_points(None)
        vals = prm.get('vals', self.base['vals'])
        m = {}
        k = 0
        for var, (n, c, _) in enumerate(self.nb[0]):
            for i in range(len(n)):
                for d, v in zip(r.off[var] + n[i] * r.spaces[var].vec + c[i], vals[var][i]):
                    m[int(d)] = v
        if any(np.iscomplexobj(v) for v in m.values()):
            R = R.astype(complex)
        for d, v in m.items():
            R[d] = u[d] - v
        return R

    def jac(self, u, prm):
        J = np.zeros((self.r.n, self.r.n))
        for j in range(self.r.n):
            v = u.astype(complex)
            v[j] += 1e-30j
            J[:, j] = self.cres(v, prm).imag / 1e-30
        return J

    def solve(self, prm, u0=None):
        P = np.eye(self.r.n) if self.P is None else self.P.toarray()
        z = np.zeros(P.shape[1]) if u0 is None else np.array(u0, float)
        for _ in range(40):
            u = P @ z
            R = P.T @ self.cres(u, prm)
            if np.linalg.norm(R) < 1e-12:
                return u
            z = z - np.linalg.solve(P.T @ self.jac(u, prm) @ P, R)
        assert np.linalg.norm(R) < 1e-9, 'reference Newton did not converge'
        return P @ z

    @staticmethod
    def leaves(prm):
        out = []
        for k in ('iv', 'siv', 'points', 'vals'):
            if k not in prm:
                continue
            if k == 'points':
                out.append(((k,), prm[k]))
            elif k == 'iv':
                out += [((k, i), a) for i, a in enumerate(prm[k])]
            else:
                out += [((k, i, j), a) for i, s in enumerate(prm[k]) for j, a in enumerate(s)]
        return out

    @staticmethod
    def put(prm, path, arr):
        q = dict(prm)
        if len(path) == 1:
            q[path[0]] = arr
        elif len(path) == 2:
            q[path[0]] = list(prm[path[0]])
            q[path[0]][path[1]] = arr
        else:
            q[path[0]] = [list(s) for s in prm[path[0]]]
            q[path[0]][path[1]][path[2]] = arr
        return q

    def sensitivity(self, prm, u=None):
        """du/dp for every entry of every leaf: {path: array (n,) + leaf shape} (direct method)."""
        u = self.solve(prm) if u is None else u
        P = np.eye(self.r.n) if self.P is None else self.P.toarray()
        K = P.T @ self.jac(u, prm) @ P
        out = {}
        for path, a in self.leaves(prm):
            cols = np.zeros((self.r.n, a.size))
            for k in range(a.size):
                b = a.astype(complex)
                b.reshape(-1)[k] += 1e-30j
                cols[:, k] = self.cres(u.astype(complex), self.put(prm, path, b)).imag / 1e-30
            out[path] = (-P @ np.linalg.solve(K, P.T @ cols)).reshape((self.r.n,) + a.shape)
        return u, out


def jaxify(prm):
    import jax
    import jax.numpy as jnp
    return jax.tree_util.tree_map(lambda a: jnp.asarray(a), prm)


def tie_last(w):
    """Reduction matrix: the last two unconstrained dofs follow earlier free ones (one copy, one weighted pair)."""
    n = w.r.n
    free = [d for d in range(n) if d not in set(w.bcdofs)]
    s1, s2 = free[-1], free[-2]
    m1, m2, m3 = free[0], free[1], free[2]
    keep = [d for d in range(n) if d not in (s1, s2)]
    pos = {d: i for i, d in enumerate(keep)}
    rows, cols, dat = [], [], []
    for d in keep:
        rows.append(d)
        cols.append(pos[d])
        dat.append(1.)
    for s, ms in ((s1, [(m1, 1.)]), (s2, [(m2, .7), (m3, .3)])):
        for m, c in ms:
            rows.append(s)
            cols.append(pos[m])
            dat.append(c)
    return sp.csr_array((dat, (rows, cols)), shape=(n, len(keep)))
