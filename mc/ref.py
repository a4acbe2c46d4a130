"""Reference finite elements, numpy only (complex-safe so that derivatives come from complex steps)."""
import itertools
import numpy as np
import basix

_H = np.array([[0, 0, 0], [1, 0, 0], [1, 1, 0], [0, 1, 0], [0, 0, 1], [1, 0, 1], [1, 1, 1], [0, 1, 1]], float)
_Q = _H[:4, :2]
_TRI = np.array([[0, 0], [1, 0], [0, 1]], float)
_TET = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]], float)
_HE = [(0, 1), (1, 2), (2, 3), (3, 0), (4, 5), (5, 6), (6, 7), (7, 4), (0, 4), (1, 5), (2, 6), (3, 7)]
_QE = [(0, 1), (1, 2), (2, 3), (3, 0)]
_TRE = [(0, 1), (1, 2), (2, 0)]
_TEE = [(0, 1), (1, 2), (2, 0), (0, 3), (1, 3), (2, 3)]


def _mid(v, edges):
    return np.vstack([v] + [v[list(e)].mean(0)[None] for e in edges])


def _tot(dim, k):
    return [e for e in itertools.product(range(k + 1), repeat=dim) if sum(e) <= k]


def _ten(dim, k):
    return list(itertools.product(range(k + 1), repeat=dim))


def _ser2(dim):  # superlinear degree (sum of exponents > 1) at most 2
    return [e for e in itertools.product(range(3), repeat=dim) if sum(a for a in e if a > 1) <= 2]


_HF = [(0, 3, 2, 1), (0, 1, 5, 4), (0, 4, 7, 3), (1, 2, 6, 5), (2, 3, 7, 6), (4, 5, 6, 7)]
_TF = [(1, 2, 3), (0, 3, 2), (0, 1, 3), (0, 2, 1)]
_hex27 = np.vstack([_mid(_H, _HE), [[0, .5, .5], [1, .5, .5], [.5, 0, .5], [.5, 1, .5], [.5, .5, 0], [.5, .5, 1], [.5, .5, .5]]])

C = basix.CellType
ELE = {
    'TRI3': dict(dim=2, verts=_TRI, nodes=_TRI, mono=_tot(2, 1), faces=_TRE, cell=C.triangle, fcell=C.interval, q=0, deg=1, meshio='triangle'),
    'TRI6': dict(dim=2, verts=_TRI, nodes=_mid(_TRI, _TRE), mono=_tot(2, 2), faces=_TRE, cell=C.triangle, fcell=C.interval, q=2, deg=2, meshio='triangle6'),
    'QUAD4': dict(dim=2, verts=_Q, nodes=_Q, mono=_ten(2, 1), faces=_QE, cell=C.quadrilateral, fcell=C.interval, q=2, deg=1, meshio='quad'),
    'QUAD8': dict(dim=2, verts=_Q, nodes=_mid(_Q, _QE), mono=_ser2(2), faces=_QE, cell=C.quadrilateral, fcell=C.interval, q=2, deg=2, meshio='quad8'),
    'TET4': dict(dim=3, verts=_TET, nodes=_TET, mono=_tot(3, 1), faces=_TF, cell=C.tetrahedron, fcell=C.triangle, q=0, deg=1, meshio='tetra'),
    'TET10': dict(dim=3, verts=_TET, nodes=_mid(_TET, _TEE), mono=_tot(3, 2), faces=_TF, cell=C.tetrahedron, fcell=C.triangle, q=2, deg=2, meshio='tetra10'),
    'HEX8': dict(dim=3, verts=_H, nodes=_H, mono=_ten(3, 1), faces=_HF, cell=C.hexahedron, fcell=C.quadrilateral, q=2, deg=1, meshio='hexahedron'),
    'HEX20': dict(dim=3, verts=_H, nodes=_mid(_H, _HE), mono=_ser2(3), faces=_HF, cell=C.hexahedron, fcell=C.quadrilateral, q=2, deg=2, meshio='hexahedron20'),
    'HEX27': dict(dim=3, verts=_H, nodes=_hex27, mono=_ten(3, 2), faces=_HF, cell=C.hexahedron, fcell=C.quadrilateral, q=10, deg=2, meshio='hexahedron27'),
}
TYPES = list(ELE)


def monomials(ele, x):
    x = np.asarray(x)
    return np.stack([np.prod([x[..., d] ** e[d] for d in range(len(e))], axis=0) for e in ELE[ele]['mono']], axis=-1)


def dmonomials(ele, x):
    x = np.asarray(x)
    dim = x.shape[-1]
    out = []
    for k in range(dim):
        cols = []
        for e in ELE[ele]['mono']:
            if e[k] == 0:
                cols.append(np.zeros(x.shape[:-1]))
            else:
                f = [e[d] - (1 if d == k else 0) for d in range(dim)]
                cols.append(e[k] * np.prod([x[..., d] ** f[d] for d in range(dim)], axis=0))
        out.append(np.stack(cols, axis=-1))
    return np.stack(out, axis=-1)  # (..., mono, dim)


_coef = {}


def coef(ele):
    if ele not in _coef:
        _coef[ele] = np.linalg.inv(monomials(ele, ELE[ele]['nodes']))
    return _coef[ele]


def shape(ele, x):
    return monomials(ele, x) @ coef(ele)


def dshape(ele, x):
    return np.einsum('...md,mn->...nd', dmonomials(ele, x), coef(ele))


def quadrature(cell, order, rule=None):
    if rule is None:
        rule = basix.QuadratureType.default
    elif isinstance(rule, str):
        rule = basix.quadrature.string_to_type(rule)
    return basix.make_quadrature(cell, order, rule=rule)


def face_points(ele, f, order, rule=None):
    """Reference-cell points on face f, weights w.r.t. the face parametrisation, parametric tangents."""
    E = ELE[ele]
    p, w = quadrature(E['fcell'], order, rule)
    v = E['verts'][list(E['faces'][f])]
    if E['dim'] == 2:
        t = [v[1] - v[0]]
    elif len(v) == 3:
        t = [v[1] - v[0], v[2] - v[0]]
    else:
        t = [v[1] - v[0], v[3] - v[0]]
    x = v[0] + sum(p[:, i:i + 1] * t[i][None] for i in range(len(t)))
    return x, w, np.stack(t, axis=-1)


def rotations(ele):
    """All orientation-preserving relabelings of the element's nodes: list of perms p, new_cell = cell[p]."""
    E = ELE[ele]
    dim, nodes = E['dim'], E['nodes']
    maps = []
    if len(E['verts']) == dim + 1:
        for p in itertools.permutations(range(dim + 1)):
            v = E['verts'][list(p)]
            A = np.stack([v[i + 1] - v[0] for i in range(dim)], axis=-1)
            if np.linalg.det(A) > 0:
                maps.append((A, v[0]))
    else:
        for perm in itertools.permutations(range(dim)):
            for s in itertools.product([1, -1], repeat=dim):
                A = np.zeros((dim, dim))
                for i in range(dim):
                    A[i, perm[i]] = s[i]
                if np.linalg.det(A) > 0:
                    maps.append((A, 0.5 - A @ np.full(dim, 0.5)))
    out = []
    for A, b in maps:
        y = nodes @ A.T + b
        d = np.linalg.norm(y[:, None] - nodes[None], axis=-1)
        p = d.argmin(1)
        assert d.min(1).max() < 1e-12
        out.append([int(i) for i in p])
    return out


class Space:
    """One finite-element variable on a mesh."""

    def __init__(self, ele, points, cells, vec, order=None, rule=None):
        E = ELE[ele]
        self.ele, self.vec, self.dim = ele, vec, E['dim']
        self.points, self.cells = np.asarray(points), np.asarray(cells)
        self.order = E['q'] if order is None else order
        self.rule = rule
        self.qp, self.qw = quadrature(E['cell'], self.order, rule)
        self.N = shape(ele, self.qp)
        self.dN = dshape(ele, self.qp)
        self.nn = len(E['nodes'])
        self.ndof = len(self.points) * vec

    def geometry(self, points=None):
        X = (self.points if points is None else points)[self.cells]
        J = np.einsum('cni,qnj->cqij', X, self.dN)
        det = np.linalg.det(J)
        G = np.einsum('qnj,cqji->cqni', self.dN, np.linalg.inv(J))
        return dict(G=G, W=det * self.qw[None], x=np.einsum('qn,cni->cqi', self.N, X), det=det)

    def face_geometry(self, faces, points=None):
        P = self.points if points is None else points
        N, G, W, x = [], [], [], []
        for c, f in faces:
            xr, w, T = face_points(self.ele, f, self.order, self.rule)
            n, d = shape(self.ele, xr), dshape(self.ele, xr)
            X = P[self.cells[c]]
            J = np.einsum('ni,qnj->qij', X, d)
            t = np.einsum('qij,jk->qik', J, T)
            if self.dim == 2:
                m = np.sqrt(np.sum(t[:, :, 0] ** 2, -1))
            else:
                m = np.sqrt(np.sum(np.cross(t[:, :, 0], t[:, :, 1]) ** 2, -1))
            N.append(n)
            G.append(np.einsum('qnj,qji->qni', d, np.linalg.inv(J)))
            W.append(m * w)
            x.append(n @ X)
        if not faces:
            nq = len(quadrature(ELE[self.ele]['fcell'], self.order, self.rule)[1])
            return dict(N=np.zeros((0, nq, self.nn)), G=np.zeros((0, nq, self.nn, self.dim)), W=np.zeros((0, nq)), x=np.zeros((0, nq, self.dim)))
        return dict(N=np.stack(N), G=np.stack(G), W=np.stack(W), x=np.stack(x))


def all_faces(ele, cells):
    return [(c, f) for c in range(len(cells)) for f in range(len(ELE[ele]['faces']))]


def face_vertices(ele, cells, c, f):
    return tuple(int(cells[c][v]) for v in ELE[ele]['faces'][f])


class RefModel:
    """Weak form on a list of Spaces.  volume(xp, us, gs, x, ivs) -> [(flux_i | None, src_i | None)];
    surfaces: list of (faces, fn(xp, us, gs, x, ivs) -> [src_i | None])."""

    def __init__(self, spaces, volume, surfaces=()):
        self.spaces, self.volume, self.surfaces = spaces, volume, list(surfaces)
        self.off = np.concatenate([[0], np.cumsum([s.ndof for s in spaces])]).astype(int)
        self.n = int(self.off[-1])
        self.set_points(None)

    def set_points(self, pts):
        """pts: list of point arrays (may be complex) or None."""
        pts = pts if pts is not None else [None] * len(self.spaces)
        self.geo = [s.geometry(p) for s, p in zip(self.spaces, pts)]
        self.fgeo = [[s.face_geometry(f, p) for s, p in zip(self.spaces, pts)] for f, _ in self.surfaces]

    def split(self, u):
        return [u[self.off[i]:self.off[i + 1]].reshape(-1, s.vec) for i, s in enumerate(self.spaces)]

    def residual(self, u, ivs=(), sivs=None):
        sols = self.split(np.asarray(u))
        dtype = complex if (np.iscomplexobj(u) or any(np.iscomplexobj(g['W']) for g in self.geo)
                            or any(np.iscomplexobj(v) for v in ivs)
                            or any(np.iscomplexobj(v) for s in (sivs or []) for v in s)) else float
        R = [np.zeros((len(s.points), s.vec), dtype) for s in self.spaces]
        us = [np.einsum('qn,cnv->cqv', s.N, sol[s.cells]) for s, sol in zip(self.spaces, sols)]
        gs = [np.einsum('cqnd,cnv->cqvd', g['G'], sol[s.cells]) for s, sol, g in zip(self.spaces, sols, self.geo)]
        out = self.volume(np, us, gs, self.geo[0]['x'], ivs) if self.volume is not None else []
        for i, (o, s, g) in enumerate(zip(out, self.spaces, self.geo)):
            flux, src = o
            el = np.zeros((len(s.cells), s.nn, s.vec), dtype)
            if flux is not None:
                el = el + np.einsum('cqvd,cqnd,cq->cnv', flux, g['G'], g['W'])
            if src is not None:
                el = el + np.einsum('cqv,qn,cq->cnv', src, s.N, g['W'])
            np.add.at(R[i], s.cells.reshape(-1), el.reshape(-1, s.vec))
        for k, (faces, fn) in enumerate(self.surfaces):
            if not faces:
                continue
            ci = np.array([c for c, _ in faces])
            us = [np.einsum('fqn,fnv->fqv', fg['N'], sol[s.cells[ci]]) for s, sol, fg in zip(self.spaces, sols, self.fgeo[k])]
            gs = [np.einsum('fqnd,fnv->fqvd', fg['G'], sol[s.cells[ci]]) for s, sol, fg in zip(self.spaces, sols, self.fgeo[k])]
            out = fn(np, us, gs, self.fgeo[k][0]['x'], sivs[k] if sivs else ())
            for i, (src, s, fg) in enumerate(zip(out, self.spaces, self.fgeo[k])):
                if src is None:
                    continue
                el = np.einsum('fqv,fqn,fq->fnv', src, fg['N'], fg['W'])
                np.add.at(R[i], s.cells[ci].reshape(-1), el.reshape(-1, s.vec))
        return np.concatenate([r.reshape(-1) for r in R])

    def jacobian(self, u, ivs=(), sivs=None, h=1e-30):
        u = np.asarray(u, float)
        J = np.zeros((self.n, self.n))
        for j in range(self.n):
            v = u.astype(complex)
            v[j] += 1j * h
            J[:, j] = self.residual(v, ivs, sivs).imag / h
        return J

    # ---- Dirichlet conditions: bc = list of (dofs array, values array), later ones win
    @staticmethod
    def bc_map(bc):
        m = {}
        for dofs, vals in bc:
            for d, v in zip(np.asarray(dofs).tolist(), np.asarray(vals).tolist()):
                m[int(d)] = v
        return m

    def imposed(self, u, bc, ivs=(), sivs=None, scale=1.):
        r = self.residual(u, ivs, sivs)
        for d, v in self.bc_map(bc).items():
            r[d] = u[d] - scale * v
        return r

    def imposed_jacobian(self, u, bc, ivs=(), sivs=None):
        J = self.jacobian(u, ivs, sivs)
        for d in self.bc_map(bc):
            J[d] = 0.
            J[d, d] = 1.
        return J

    def newton(self, bc, ivs=(), sivs=None, u0=None, tol=1e-12, maxit=40):
        u = np.zeros(self.n) if u0 is None else np.array(u0, float)
        for _ in range(maxit):
            r = self.imposed(u, bc, ivs, sivs)
            if np.linalg.norm(r) < tol:
                return u
            u = u - np.linalg.solve(self.imposed_jacobian(u, bc, ivs, sivs), r)
        r = self.imposed(u, bc, ivs, sivs)
        assert np.linalg.norm(r) < 1e-9, 'reference Newton did not converge'
        return u


def close(a, b, rtol=1e-9, atol=1e-10):
    """max |a-b| <= atol + rtol * max|b|, and finite, and equal shape."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    if a.size == 0:
        return True
    return bool(np.max(np.abs(a - b)) <= atol + rtol * np.max(np.abs(b)))


def diff(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return 'shapes %s vs %s' % (a.shape, b.shape)
    return 'max difference %g (reference scale %g)' % (np.max(np.abs(a - b)) if a.size else 0., np.max(np.abs(b)) if b.size else 0.)
