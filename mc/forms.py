"""Enumeration of weak-form configurations shared by C04 and C05."""
import itertools
import numpy as np
from . import ref, meshes, models

SURF = {'none': [], 'one': [['x-', 'nl', None]], 'two': [['y+', 'lin', None], ['all', 'nl', None]],
        'univ': [['x+', None, 'nl']], 'both': [['x-', 'nl', 'lin'], ['y+', 'load', 'nl']],
        'three': [['x-', 'load', None], ['none', 'nl', None], ['x+', 'nl', None]]}
TERMS = [t for t in itertools.product([0, 1], repeat=3) if any(t)]


def _form(eles, vecs, t, surf, iv, lin=False):
    T, M, U = t
    v = 'lin' if lin else 'nl'
    return dict(eles=eles, vecs=vecs, T=(('nonsym' if lin else 'nl') if T else None), M=(v if M else None), U=(v if U else None), surf=surf, iv=iv)


def product_jobs(tier, kinds=('TRI3', 'QUAD4'), surfs=('none', 'one', 'two', 'univ', 'both', 'three')):
    js = []
    for e in kinds:
        for iv in (0, 1, 2, 3):
            for s in surfs:
                js.append(dict(kind='product', ele=e, vec=2, iv=iv, surf=s, n=[2, 1] + [1] * (ref.ELE[e]['dim'] - 2)))
    return js


def expand(job):
    """Configurations of a job: list of (label, form, mesh arrays, quadrature order)."""
    out = []
    if job['kind'] == 'product':
        e = job['ele']
        mm = [bent(e, job['n'])]
        for t in TERMS:
            out.append((['T%d M%d U%d' % t], _form([e], [job['vec']], t, SURF[job['surf']], job['iv']), mm, None))
    elif job['kind'] == 'element':
        e = job['ele']
        dim = ref.ELE[e]['dim']
        mm = [bent(e, [2] + [1] * (dim - 1))]
        for vec in job['vecs']:
            for s, iv, lin, t in job['cfgs']:
                out.append(([vec, s, iv, lin, t], _form([e], [vec], t, SURF[s], iv, lin), mm, None))
    elif job['kind'] == 'coupled':
        dim = ref.ELE[job['eles'][0]]['dim']
        mm = [bent(e, [2] + [1] * (dim - 1)) for e in job['eles']]
        for s, iv, lin in job['cfgs']:
            surf = [[n, None, (u or 'nl')] for n, _, u in SURF[s]]
            out.append(([s, iv, lin], _form(job['eles'], job['vecs'], (0, 0, 1), surf, iv, lin), mm, None))
    elif job['kind'] == 'cells':
        for k in job['counts']:
            n = [k, 1] if job['ele'] != 'TRI3' or k > 1 else [1, 1]
            p, c = bent(job['ele'], n)
            if job['ele'] == 'TRI3':
                c = c[:k]
                used = sorted(set(c.reshape(-1).tolist()))
                p = p[used]
                m = {o: i for i, o in enumerate(used)}
                c = np.array([[m[int(a)] for a in r] for r in c])
            out.append(([k], _form([job['ele']], [2], (1, 1, 1), SURF['both'], 3), [(p, c)], None))
    elif job['kind'] == 'order':
        e = job['ele']
        mm = [bent(e, [2] + [1] * (ref.ELE[e]['dim'] - 1))]
        for o in job['orders']:
            out.append(([o], _form([e], [2], (1, 1, 0), SURF['two'], 1), mm, o))
    return out


def bent(ele, n):
    """Irregular mesh: nodes slide within the boundary planes, so that cells of higher order are curved and quads and hexes are not parallelepipeds."""
    p, c = meshes.mesh(ele, n)
    q = p.copy()
    for d in range(p.shape[1]):
        o = p[:, (d + 1) % p.shape[1]]
        q[:, d] += (.22 - .07 * d) * p[:, d] * (1. - p[:, d]) * np.cos(1. + 2.3 * o + d)
    p = q
    return meshes.affine(p, 0), meshes.rotate_cells(ele, c, [0, 1])


FULL = [1, 1, 1]


def jobs(tier):
    th = tier == 'thorough'
    js = []
    kinds = ['TRI3', 'QUAD4'] if not th else ['TRI3', 'QUAD4', 'TET4', 'HEX8', 'TRI6', 'QUAD8']
    js += product_jobs(tier, kinds)
    for e in ref.TYPES:
        cfg = [['both', 3, 0, FULL], ['two', 1, 1, FULL]]
        if th:
            cfg = [[s, iv, lin, list(t)] for s in SURF for iv in (0, 3) for lin in (0, 1) for t in [(1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1)]]
        vecs = [1, 2, 3] if (th or e not in ('HEX20', 'HEX27')) else [3, 1]
        for v in vecs:
            js.append(dict(kind='element', ele=e, vecs=[v], cfgs=cfg))
    ccfg = [['two', 2, 0], ['none', 0, 1]] if not th else [[s, iv, lin] for s in SURF for iv in (0, 1, 3) for lin in (0, 1)]
    for eles, vecs in [(['TRI6', 'TRI3'], [2, 1]), (['QUAD8', 'QUAD4'], [2, 1]), (['QUAD4', 'QUAD4', 'QUAD4'], [1, 2, 3]), (['TRI3', 'TRI6'], [3, 2]), (['QUAD4', 'QUAD8', 'QUAD4'], [2, 1, 3]),
                       (['TET10', 'TET4'], [3, 1]), (['HEX8', 'HEX8'], [1, 3])] + ([(['HEX20', 'HEX8'], [3, 1]), (['HEX27', 'HEX8'], [2, 2])] if th else []):
        js.append(dict(kind='coupled', eles=eles, vecs=vecs, cfgs=ccfg))
    counts = [[1, 2, 3, 5], [19, 20, 21], [22, 39], [40, 41], [43, 59], [61, 100]]
    for ch in counts:
        js.append(dict(kind='cells', ele='QUAD4', counts=ch))
        if th:
            js.append(dict(kind='cells', ele='TRI3', counts=ch))
    for e in ('TRI3', 'QUAD8') if not th else ref.TYPES:
        js.append(dict(kind='order', ele=e, orders=[1, 2, 3, 4] if not th else list(range(1, 8))))
    # expensive slices first
    js.sort(key=lambda j: 0 if j['kind'] in ('coupled', 'element') and ('3' in str(j.get('ele', j.get('eles'))) or 'HEX' in str(j) or 'TET10' in str(j)) else 1)
    return js
