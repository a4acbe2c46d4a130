"""Small problems for arc-length continuation: in equilibrium at zero displacement and zero load factor."""
import numpy as np
from . import models, meshes, ref
from .checks import c08


def m_snap(xp, u, x, ivs):
    """Snap-through foundation: positive, negative, positive stiffness along u."""
    return models._amp(xp, 10. * u * (u + 1.) * (u + 1.4) * (1. + .2 * x[..., :1]), ivs, 1)


def m_soft(xp, u, x, ivs):
    return models._amp(xp, u + .5 * u ** 3, ivs, 1)


# the same in small units: displacements are measured in MICRO
MICRO = 1e-6


def m_micro(xp, u, x, ivs):
    return m_snap(xp, u / MICRO, x, ivs)


def t_micro(xp, g, ivs):
    return models._amp(xp, 1.7 * g / MICRO, ivs, 2)


models.MN['micro'], models.FN['micro'] = m_micro, t_micro
models.MN['snap'] = m_snap
models.MN['soft'] = m_soft
# name: (element types, components, T, M, U)
KINDS = {'cubic': (['QUAD4'], [1], 'nl', 'soft', None), 'vec': (['TRI3'], [2], 'nl', None, None), 'snap': (['QUAD4'], [1], 'lin', 'snap', None), 'micro': (['QUAD4'], [1], 'micro', 'micro', None),
         'tet': (['TET4'], [3], 'nonsym', 'soft', None), 'coupled': (['QUAD8', 'QUAD4'], [2, 1], None, None, 'hom')}


def u_hom(xp, us, gs, x, ivs):
    tot = sum(xp.sum(u * u, axis=-1) for u in us)
    return [(f + .1 * tot[..., None, None] * g, s + .3 * tot[..., None] * u) for (f, s), u, g in zip(models.u_lin(xp, us, gs, x, ivs), us, gs)]


models.UN['hom'] = u_hom


def make(kind, control, cls, val=.4):
    """(problem, reference, bc, residual offset vector q)."""
    eles, vecs, T, M, U = KINDS[kind]
    dim = ref.ELE[eles[0]]['dim']
    mm = [meshes.mesh(e, [2, 1] if dim == 2 else [1, 1, 1]) for e in eles]
    mm = [(meshes.affine(p, 0), c) for p, c in mm]
    one = len(eles) == 1
    surf = []
    if control == 'force':
        surf = [['all', 'load' if one else None, None if one else 'load']]
    form = dict(eles=eles, vecs=vecs, T=T, M=M, U=U, surf=surf, iv=1)
    r = models.reference(form, mm)
    v = val if control == 'displacement' else 0.
    spec = [(0, 0, k, v if k == 0 else 0.) for k in range(vecs[0])] + ([(0, 1, 0, -.5 * v)] if control == 'displacement' else [])
    if kind in ('snap', 'micro') and control == 'force':
        spec = []  # free foundation: passes two limit points
    nb = c08.node_bc(mm, vecs, spec)
    if control == 'force':
        for n, c, w in nb[0]:
            for i in range(len(w)):
                w[i] = 0. * w[i]
        nb = (nb[0], [(d, 0. * w) for d, w in nb[1]])
    if kind == 'micro':
        for n, c, w in nb[0]:
            for i in range(len(w)):
                w[i] = MICRO * w[i]
        nb = (nb[0], [(d, MICRO * w) for d, w in nb[1]])
    p = models.build(cls, form, mm)
    c08.put_bc(p, nb)
    return p, r, nb[1], form


models.QN['load'] = lambda xp, us, gs, x, ivs: [models._amp(xp, 0. * u + 1.5 - x[..., 1:2], ivs, 1) for u in us]
