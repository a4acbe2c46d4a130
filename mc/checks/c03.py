"""C03: selection of boundary faces and Dirichlet nodes.  Space: all vertex/node subsets of small meshes."""
import itertools
import numpy as np
from mc import ref, meshes
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (mesh, subset of nodes, way of expressing it); non-trivial: the subset is neither empty nor complete; '
        'expected faces/nodes recomputed from the definition')
BOUND = {'quick': 'all vertex subsets of one- and two-cell meshes (two-cell hexahedra: all subsets of at most 6 of 12 corners), all node subsets of 9-node grids, all pairs from a menu of 12 location functions',
         'thorough': 'additionally all 4096 corner subsets of two hexahedra and three-cell meshes'}
MESHES = {'TRI3': [[1, 1], [2, 1]], 'TRI6': [[1, 1]], 'QUAD4': [[1, 1], [2, 1], [2, 2]], 'QUAD8': [[1, 1], [2, 1]], 'TET4': [[1, 1, 1]],
          'TET10': [[1, 1, 1]], 'HEX8': [[1, 1, 1], [2, 1, 1]], 'HEX20': [[1, 1, 1]], 'HEX27': [[1, 1, 1]]}


def _chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def jobs(tier, seed):
    js = []
    for e, ms in MESHES.items():
        for m in ms:
            pts, cells = meshes.mesh(e, m)
            nv = len(np.unique(cells[:, :len(ref.ELE[e]['verts'])]))
            subs = list(range(2 ** nv))
            if tier == 'quick' and nv > 9:
                subs = [s for s in subs if bin(s).count('1') <= 6]
            for ch in _chunks(subs, 320):
                js.append(dict(kind='faces', ele=e, n=m, lo=ch[0], subs=ch))
            js.append(dict(kind='menu', ele=e, n=m))
    for e, m in [('QUAD4', [2, 2]), ('TRI3', [2, 2]), ('TET4', [1, 1, 1]), ('HEX8', [1, 1, 1]), ('QUAD8', [1, 1]), ('TRI6', [1, 1])]:
        pts, _ = meshes.mesh(e, m)
        for ch in _chunks(list(range(2 ** len(pts))), 256):
            js.append(dict(kind='nodes', ele=e, n=m, lo=ch[0], subs=ch))
    js.append(dict(kind='errors'))
    js.append(dict(kind='report'))
    return js


def _expected_faces(ele, cells, mask):
    return sorted((c, tuple(sorted(ref.face_vertices(ele, cells, c, f)))) for c, f in ref.all_faces(ele, cells)
                  if all(mask[v] for v in ref.face_vertices(ele, cells, c, f)))


def _rows(fe, cells, rows):
    rows = np.asarray(rows)
    if rows.ndim != 2 or rows.shape[1] != 2:
        raise CheckFail('selected faces have shape %s' % (rows.shape,))
    fi = np.asarray(fe.face_inds)
    return sorted((int(c), tuple(sorted(int(cells[c][v]) for v in fi[f]))) for c, f in rows)


def _cmp_faces(got, want, what):
    if got != want:
        raise CheckFail('%s: selected %s, expected %s' % (what, got[:8], want[:8]))


def run(job, ctx):
    import jax.numpy as jnp
    from jax_fem.fe import FiniteElement
    from jax_fem.generate_mesh import Mesh
    if job['kind'] == 'errors':
        return errors(ctx)
    if job['kind'] == 'report':
        return report(ctx)
    ele = job['ele']
    dim = ref.ELE[ele]['dim']
    pts, cells = meshes.mesh(ele, job['n'])
    pts = meshes.affine(pts, 0)
    mesh = Mesh(pts, cells, ele_type=ele)

    def mk(info=None, vec=2):
        return FiniteElement(mesh=mesh, vec=vec, dim=dim, ele_type=ele, quadrature_rule=None, quadrature_order=None, dirichlet_bc_info=info)
    fe = mk()
    N = len(pts)
    verts = sorted(set(int(v) for v in cells[:, :len(ref.ELE[ele]['verts'])].reshape(-1)))
    mids = [i for i in range(N) if i not in verts]

    def by_index(mask):
        m = jnp.asarray(mask)
        return lambda x, ind: m[ind]

    def by_point(mask):
        sel = jnp.asarray(np.where(mask[:, None], pts, 1e6))
        return lambda x: jnp.any(jnp.all(jnp.isclose(sel, x[None, :], atol=1e-7), axis=-1))

    if job['kind'] == 'faces':
        for s in job['subs']:
            def f():
                mask = np.zeros(N, bool)
                for k, v in enumerate(verts):
                    mask[v] = bool(s >> k & 1)
                if s % 2:
                    mask[mids] = True  # other nodes of a face must not matter
                want = _expected_faces(ele, cells, mask)
                got = fe.get_boundary_conditions_inds([by_index(mask), by_point(mask)])
                if len(got) != 2:
                    raise CheckFail('%d sets returned for 2 location functions' % len(got))
                _cmp_faces(_rows(fe, cells, got[0]), want, 'by node number')
                _cmp_faces(_rows(fe, cells, got[1]), want, 'by coordinates')
                if s % 4 == 0 and mesh.count_selected_faces(by_point(mask)) != len(want):
                    raise CheckFail('mesh face count %s, expected %d' % (mesh.count_selected_faces(by_point(mask)), len(want)))
                ctx.outcome('%d faces' % len(want))
                return len(want)
            ctx.case([ele, job['n'], s], f, nontrivial=0 < s < 2 ** len(verts) - 1)
        return
    if job['kind'] == 'nodes':
        vf = [lambda x: 1. + x[0] - 3. * x[1], lambda x: x[0] * x[1], lambda x: 2.5]
        for s in job['subs']:
            def f():
                mask = np.array([bool(s >> k & 1) for k in range(N)])
                comp = s % 2
                locs = [by_index(mask), by_point(mask), by_index(~mask)]
                vecs = [comp, 1 - comp, comp]
                for e in (mk([locs, vecs, vf]), fe):
                    if e is fe:
                        fe.update_Dirichlet_boundary_conditions([locs, vecs, vf])
                    for i, (m, v, g) in enumerate(zip([mask, mask, ~mask], vecs, vf)):
                        n = np.asarray(e.node_inds_list[i])
                        c = np.asarray(e.vec_inds_list[i])
                        val = np.asarray(e.vals_list[i])
                        if sorted(n.tolist()) != np.where(m)[0].tolist():
                            raise CheckFail('condition %d selects nodes %s, expected %s' % (i, n, np.where(m)[0]))
                        if c.shape != n.shape or np.any(c != v):
                            raise CheckFail('condition %d: components %s, expected all %d' % (i, c, v))
                        w = np.array([float(g(p)) for p in pts[n]]).reshape(-1)
                        if not ref.close(val, w, 1e-12, 1e-12):
                            raise CheckFail('condition %d: values %s, expected %s' % (i, val, w))
                return int(mask.sum())
            ctx.case(['nodes', ele, job['n'], s], f, nontrivial=0 < s < 2 ** N - 1)
        return
    # ---- menu: pairs and triples of location functions, independence of the sets, Problem-level sets
    from jax_fem.problem import Problem

    class P(Problem):
        def get_tensor_map(self):
            return lambda g: g

        def get_surface_maps(self):
            return [lambda u, x: u] * len(self.location_fns)
    lo, hi = pts.min(0), pts.max(0)
    half = np.arange(N) < N // 2
    menu = [('all', lambda x: True, np.ones(N, bool)), ('none', lambda x: False, np.zeros(N, bool)),
            ('all-array', lambda x: x[0] > -1e9, np.ones(N, bool)),
            ('ind0', lambda x, i: i == 0, np.arange(N) == 0), ('ind-half', lambda x, i: i < N // 2, half),
            ('ind-rest', lambda x, i: i >= N // 2, ~half), ('even', lambda x, i: i % 2 == 0, np.arange(N) % 2 == 0),
            ('isin', lambda x, i: jnp.isin(i, jnp.asarray(verts[:4])), np.isin(np.arange(N), verts[:4])),
            ('both', lambda x, i: (x[0] < .5 * (lo[0] + hi[0])) & (i > 0), (pts[:, 0] < .5 * (lo[0] + hi[0])) & (np.arange(N) > 0))]
    for d in range(dim):
        menu.append(('low%d' % d, (lambda d: lambda x: x[d] < .5 * (lo[d] + hi[d]))(d), pts[:, d] < .5 * (lo[d] + hi[d])))
    p0 = None
    for (na, fa, ma), (nb, fb, mb) in itertools.product(menu, menu):
        def f():
            got = fe.get_boundary_conditions_inds([fa, fb, fa])
            for g, m, n in zip(got, (ma, mb, ma), (na, nb, na)):
                _cmp_faces(_rows(fe, cells, g), _expected_faces(ele, cells, m), 'set %s in [%s, %s, %s]' % (n, na, nb, na))
            e = mk([[fb, fa], [1, 0], [lambda x: x[0], lambda x: -x[1]]])
            for i, (m, sgn) in enumerate(((mb, 0), (ma, 1))):
                n = np.asarray(e.node_inds_list[i])
                if sorted(n.tolist()) != np.where(m)[0].tolist():
                    raise CheckFail('Dirichlet set %d of [%s, %s] is %s' % (i, nb, na, n))
                w = pts[n][:, 0] if i == 0 else -pts[n][:, 1]
                if not ref.close(e.vals_list[i], w, 1e-12, 1e-12):
                    raise CheckFail('Dirichlet values of set %d of [%s, %s]' % (i, nb, na))
            return len(got)
        ctx.case(['menu', ele, job['n'], na, nb], f)
    for na, fa, ma in menu:
        if na.startswith('ind') or na in ('even', 'isin', 'both'):
            continue

        def f():
            want = len(_expected_faces(ele, cells, ma))
            got = mesh.count_selected_faces(fa)
            if got != want:
                raise CheckFail('face count for %s is %s, expected %s' % (na, got, want))
            return want
        ctx.case(['count', ele, job['n'], na], f)

    def f():
        sets = [m for m in menu if m[0] not in ('none',)][:4] + [menu[1]]
        p = P(mesh, vec=2, dim=dim, ele_type=ele, location_fns=[m[1] for m in sets])
        for g, m in zip(p.boundary_inds_list, sets):
            _cmp_faces(_rows(p.fes[0], cells, g), _expected_faces(ele, cells, m[2]), 'problem set %s' % m[0])
        if fe.get_boundary_conditions_inds(None) != [] or fe.get_boundary_conditions_inds([]) != []:
            raise CheckFail('no location functions must give no sets')
        e = mk(None)
        if len(e.node_inds_list) + len(e.vec_inds_list) + len(e.vals_list) != 0:
            raise CheckFail('no Dirichlet information must give no conditions')
        fe.update_Dirichlet_boundary_conditions([[menu[0][1]], [0], [lambda x: 1.]])
        fe.update_Dirichlet_boundary_conditions(None)
        if len(fe.node_inds_list) != 0:
            raise CheckFail('resetting the conditions leaves %d of them' % len(fe.node_inds_list))
        return 'ok'
    ctx.case(['problem', ele, job['n']], f)


def errors(ctx):
    import jax.numpy as jnp
    from jax_fem.fe import FiniteElement
    from jax_fem.generate_mesh import Mesh
    pts, cells = meshes.mesh('QUAD4', [1, 1])
    fe = FiniteElement(mesh=Mesh(pts, cells), vec=2, dim=2, ele_type='QUAD4', quadrature_rule=None, quadrature_order=None, dirichlet_bc_info=None)
    ok, v = (lambda x: x[0] < 9), (lambda x: 0.)
    bad = {'zero-arg': lambda: True, 'three-arg': lambda x, i, j: True, 'four-arg': lambda a, b, c, d: True}
    for k, b in bad.items():
        for pos in range(2):
            def f():
                l = [ok, ok]
                l[pos] = b
                for fn in (lambda: fe.get_boundary_conditions_inds(l), lambda: fe.Dirichlet_boundary_conditions([l, [0, 1], [v, v]]),
                           lambda: fe.update_Dirichlet_boundary_conditions([l, [0, 1], [v, v]])):
                    try:
                        fn()
                    except Exception:
                        continue
                    raise CheckFail('location function with wrong number of arguments accepted')
                return 'rejected'
            ctx.case(['bad-args', k, pos], f)
    for a, b, c in itertools.product(range(3), repeat=3):
        if a == b == c:
            continue

        def f():
            try:
                fe.Dirichlet_boundary_conditions([[ok] * a, [0] * b, [v] * c])
            except Exception:
                return 'rejected'
            raise CheckFail('lists of lengths %s accepted' % ((a, b, c),))
        ctx.case(['lengths', a, b, c], f)


def report(ctx):
    """The printed description of the boundary data contains exactly the selected faces, nodes, components and values."""
    import contextlib
    import io
    import itertools
    import re
    from mc import models
    cls = models.make_problem_class()
    for eles, vecs in ((['QUAD4'], [2]), (['HEX8'], [1]), (['QUAD8', 'QUAD4'], [2, 1])):
        dim = ref.ELE[eles[0]]['dim']
        mm = [meshes.mesh(e, [2, 1] + [1] * (dim - 2)) for e in eles]
        last = len(eles) - 1
        menu = [[0, 'x-', 0, 'x'], [last, 'y+', vecs[-1] - 1, 'const'], [0, 'none', 0, 'zero'], [0, 'x+', vecs[0] - 1, 'xx']]
        for k, surf in itertools.product(range(16), ([], ['x+'], ['y-', 'x-'], ['none', 'all'])):
            conds = [c for i, c in enumerate(menu) if k >> i & 1]
            form = dict(eles=eles, vecs=vecs, T=None, M=None, U='lin', surf=[[s, None, 'lin'] for s in surf], iv=0)

            def f():
                p = models.build(cls, form, mm, bc=models.bc_info(conds, len(eles), mm[0][0]))
                buf = io.StringIO()
                with np.printoptions(threshold=10 ** 6, precision=17), contextlib.redirect_stdout(buf):
                    p.print_BC_info()
                t = buf.getvalue()
                rows = [sorted(r for r in ([float(x) for x in q.split()] for q in re.findall(r'\[([^\[\]]*)\]', b.split('Array.shape')[0])) if r)
                        for b in re.split(r'information:', t)[1:]]
                r = models.reference(form, mm)
                want = []
                for (faces, _), bi in zip(r.surfaces, p.boundary_inds_list):
                    want.append(sorted([float(a), float(b)] for a, b in np.asarray(bi).tolist()))
                    if len(faces) != len(bi):
                        raise CheckFail('%d faces selected, %d expected' % (len(bi), len(faces)))
                off = r.off
                for d, v in models.ref_bc(conds, r):
                    var = int(np.searchsorted(off, d[0], side='right') - 1) if len(d) else 0
                    w = vecs[var]
                    want.append(sorted([float((a - off[var]) // w), float((a - off[var]) % w), float(b)] for a, b in zip(d, v)))
                got = rows
                if len(got) != len(want):
                    raise CheckFail('%d sets printed, %d defined' % (len(got), len(want)))
                for g, w in zip(got, want):
                    if len(g) != len(w) or any(len(a) != len(b) or not np.abs(np.array(a) - b).max() <= 1e-12 for a, b in zip(g, w)):
                        raise CheckFail('printed %s, selected %s' % (g[:6], w[:6]))
                return t[:60]
            ctx.case(['report', eles, k, surf], f, nontrivial=bool(conds or surf))
