"""Small conforming meshes of every element type (independent of jax_fem's generators)."""
import itertools
import numpy as np
from .ref import ELE, shape, rotations

LIN = {'TRI3': 'TRI3', 'TRI6': 'TRI3', 'QUAD4': 'QUAD4', 'QUAD8': 'QUAD4', 'TET4': 'TET4', 'TET10': 'TET4',
       'HEX8': 'HEX8', 'HEX20': 'HEX8', 'HEX27': 'HEX8'}


def _grid(n, size):
    dim = len(n)
    axes = [np.linspace(0., size[d], n[d] + 1) for d in range(dim)]
    pts = np.array(list(itertools.product(*axes)))
    idx = np.arange(len(pts)).reshape([k + 1 for k in n])
    cells = []
    for ijk in itertools.product(*[range(k) for k in n]):
        if dim == 2:
            i, j = ijk
            cells.append([idx[i, j], idx[i + 1, j], idx[i + 1, j + 1], idx[i, j + 1]])
        else:
            i, j, k = ijk
            q = [(i, j), (i + 1, j), (i + 1, j + 1), (i, j + 1)]
            cells.append([idx[a, b, k] for a, b in q] + [idx[a, b, k + 1] for a, b in q])
    return pts, np.array(cells)


_KUHN = []
for p in itertools.permutations(range(3)):
    v = [np.zeros(3, int)]
    for a in p:
        w = v[-1].copy()
        w[a] = 1
        v.append(w)
    loc = {(0, 0, 0): 0, (1, 0, 0): 1, (1, 1, 0): 2, (0, 1, 0): 3, (0, 0, 1): 4, (1, 0, 1): 5, (1, 1, 1): 6, (0, 1, 1): 7}
    t = [loc[tuple(int(c) for c in x)] for x in v]
    A = np.array([v[i] - v[0] for i in (1, 2, 3)])
    if np.linalg.det(A) < 0:
        t[2], t[3] = t[3], t[2]
    _KUHN.append(t)


def linear_mesh(kind, n, size=None):
    """kind in TRI3/QUAD4/TET4/HEX8; n = subdivisions per axis."""
    size = [1.] * len(n) if size is None else size
    pts, cells = _grid(n, size)
    if kind == 'TRI3':
        cells = np.array([t for c in cells for t in ([c[0], c[1], c[2]], [c[0], c[2], c[3]])])
    elif kind == 'TET4':
        cells = np.array([[c[i] for i in t] for c in cells for t in _KUHN])
    return pts, cells


def upgrade(ele, pts, cells):
    """Add the higher-order nodes of `ele` to a linear mesh."""
    lin = LIN[ele]
    if lin == ele:
        return pts, cells
    B = shape(lin, ELE[ele]['nodes'])
    X = np.einsum('nv,cvd->cnd', B, pts[cells])
    flat = np.round(X.reshape(-1, X.shape[-1]), 9)
    uniq, inv = np.unique(flat, axis=0, return_inverse=True)
    return uniq, np.asarray(inv).reshape(X.shape[:2])


def mesh(ele, n, size=None):
    pts, cells = linear_mesh(LIN[ele], n, size)
    return upgrade(ele, pts, cells)


def single(ele):
    E = ELE[ele]
    return E['nodes'].copy(), np.arange(len(E['nodes']))[None]


def affine(pts, k=0):
    dim = pts.shape[1]
    A = np.array([[1.3, .2, -.1], [-.3, .9, .25], [.15, -.2, 1.1]])[:dim, :dim]
    if k == 1:
        A = np.array([[0., -1.1, .2], [1.2, .1, 0.], [.3, .2, .8]])[:dim, :dim]
    return pts @ A.T + np.array([.3, -.7, .2])[:dim]


def curved(pts):
    dim = pts.shape[1]
    x = pts
    o = x.copy()
    o[:, 0] = x[:, 0] + .12 * x[:, 1] ** 2 + .07 * x[:, 0] * x[:, 1]
    o[:, 1] = x[:, 1] - .1 * x[:, 0] ** 2 + .06 * x[:, 0] * x[:, 1]
    if dim == 3:
        o[:, 2] = x[:, 2] + .08 * x[:, 0] * x[:, 1] + .05 * x[:, 2] ** 2
        o[:, 0] += .05 * x[:, 2] ** 2
    return o


def rotate_cells(ele, cells, which):
    """Relabel cell k by rotation which[k % len(which)]."""
    R = rotations(ele)
    return np.array([[c[i] for i in R[which[k % len(which)] % len(R)]] for k, c in enumerate(cells)])
