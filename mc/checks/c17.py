"""C17: mesh generators.  Space: all subdivisions up to a bound x domain sizes x element types, histories of generator calls in one directory."""
import itertools
import os
import numpy as np
from mc import ref, meshes
from mc.core import CheckFail

LEVEL = 'exploration'
RULE = ('one case per (generator, subdivisions, domain, element type): orientation, conformity, partition of the domain, node order; one per history of calls in one directory; '
        'non-trivial: more than one cell')
BOUND = {'quick': 'rectangle up to 5x5, box up to 4x4x4 x 4 domains; gmsh box up to 3x3x2 x 2 domains (TET4, HEX8) and 2x2x2 (TET10, HEX27); cylinder circle 2..5 x height 1..3 x 3 shapes; all histories of 3 calls over 4 generators; all vertex orders of tetrahedra',
         'thorough': 'rectangle up to 9x9, box up to 6x6x6; gmsh box up to 4x4x4 of all four types x 3 domains; cylinder circle 2..9 x height 1..6; histories of 4 calls'}
ASSUMPTIONS = ['the gmsh executable of the Python environment is on PATH (this check adds it)', 'circle_mesh counts the nodes per curve of the cylinder cross-section, as gmsh defines transfinite curves']
DOM = [[1., 1., 1.], [2.5, .3, 7.], [1e-3, 2e-3, 5e-4], [100., 3., 40.]]


def jobs(tier, seed):
    q = tier == 'quick'
    js = []
    m, b = (5, 4) if q else (9, 6)
    js += [dict(kind='rectangle', nx=i, m=m) for i in range(1, m + 1)]
    js += [dict(kind='box', nx=i, m=b) for i in range(1, b + 1)]
    for ele in ('TET4', 'HEX8', 'TET10', 'HEX27'):
        for nx in ((1, 2, 3) if q and ele in ('TET4', 'HEX8') else (1, 2) if q else (1, 2, 3, 4)):
            n = ([3, 2] if ele in ('TET4', 'HEX8') else [2, 2]) if q else [4, 4]
            js.append(dict(kind='gmsh', ele=ele, nx=nx, n=n, dom=[0, 1] if q else [0, 1, 2]))
    for c in range(2, 6 if q else 10):
        js.append(dict(kind='cylinder', circle=c, h=3 if q else 6))
    for a in range(4):
        js.append(dict(kind='history', pre=[a], depth=3 if q else 4))
    js.append(dict(kind='names'))
    js.sort(key=lambda j: j['kind'] not in ('history', 'gmsh'))
    return js


def check_mesh(ele, pts, cells, volume, what):
    pts, cells = np.asarray(pts, float), np.asarray(cells)
    if pts.ndim != 2 or pts.shape[1] != ref.ELE[ele]['dim'] or cells.ndim != 2 or cells.shape[1] != len(ref.ELE[ele]['nodes']):
        raise CheckFail('%s: shapes %s, %s do not fit %s' % (what, pts.shape, cells.shape, ele))
    if cells.min() < 0 or cells.max() >= len(pts):
        raise CheckFail('%s: cells name nodes that do not exist' % what)
    scale = pts.max(0) - pts.min(0)
    if len(np.unique(cells)) != len(pts):
        raise CheckFail('%s: %d of %d nodes are not used by a cell' % (what, len(pts) - len(np.unique(cells)), len(pts)))
    if len(np.unique(np.round(pts / scale, 7), axis=0)) != len(pts):
        raise CheckFail('%s: duplicate nodes' % what)
    sp = ref.Space(ele, pts, cells, 1)
    det = sp.geometry()['det']
    if det.min() <= 0:
        raise CheckFail('%s: %d cells are not positively oriented' % (what, int((det.min(1) <= 0).sum())))
    vol = sp.geometry()['W'].sum()
    if not abs(vol - volume) <= 1e-8 * volume:
        raise CheckFail('%s: the cells measure %.12g, the domain %.12g' % (what, vol, volume))
    # conforming: each face belongs to at most two cells; return the faces of one cell
    F = {}
    for c, f in ref.all_faces(ele, cells):
        F.setdefault(tuple(sorted(ref.face_vertices(ele, cells, c, f))), []).append((c, f))
    many = [k for k, v in F.items() if len(v) > 2]
    if many:
        raise CheckFail('%s: face %s belongs to more than two cells' % (what, many[0]))
    # node order: the nodes of straight-sided cells are the images of the reference nodes
    lin = meshes.LIN[ele]
    nv = len(ref.ELE[lin]['nodes'])
    B = ref.shape(lin, ref.ELE[ele]['nodes'])
    X = np.einsum('nv,cvd->cnd', B, pts[cells[:, :nv]])
    e = np.abs((X - pts[cells]) / scale).max()
    if not e <= 1e-7:
        raise CheckFail('%s: nodes are not in the order of the element table (relative distance %g)' % (what, e))
    return [v[0] for v in F.values() if len(v) == 1]


def check_box(ele, pts, cells, n, size, what, structured=True):
    dim = len(n)
    outer = check_mesh(ele, pts, cells, float(np.prod(size)), what)
    pts, cells = np.asarray(pts, float), np.asarray(cells)
    nv = len(ref.ELE[meshes.LIN[ele]]['nodes'])
    size = np.asarray(size)
    for c, f in outer:
        x = pts[list(ref.face_vertices(ele, cells, c, f))]
        on = [(np.abs(x[:, d] - e) < 1e-7 * size[d]).all() for d in range(dim) for e in (0., size[d])]
        if not any(on):
            raise CheckFail('%s: face %d of cell %d has one cell but is not on the boundary' % (what, f, c))
    # requested subdivision: vertices are the grid, every cell lies in one grid cell
    V = np.unique(np.round(pts[np.unique(cells[:, :nv])] / size * np.array(n), 6), axis=0)
    G = np.array(sorted(itertools.product(*[range(k + 1) for k in n])), float)
    if V.shape != G.shape or not np.abs(V - G).max() <= 1e-6:
        raise CheckFail('%s: the vertices are not the %s grid' % (what, n))
    deg = ref.ELE[ele]['deg']
    x = pts[cells[:, :nv]] / size * np.array(n)
    lo, hi = np.round(x.min(1), 6), np.round(x.max(1), 6)
    if not np.abs(hi - lo - 1).max() <= 1e-6:
        raise CheckFail('%s: a cell spans other than one subdivision' % what)
    if structured and len(cells) != np.prod(n):
        raise CheckFail('%s: %d cells instead of %d' % (what, len(cells), np.prod(n)))
    vol = {}
    for k, c in zip(map(tuple, lo), ref.Space(ele, pts, cells, 1).geometry()['W'].sum(1)):
        vol[k] = vol.get(k, 0.) + c
    if len(vol) != np.prod(n) or not all(abs(v - np.prod(size / np.array(n))) <= 1e-8 * np.prod(size) for v in vol.values()):
        raise CheckFail('%s: a subdivision is not covered exactly once' % what)


def check_cylinder(pts, cells, R, H, cm, hm, what):
    nc = cm - 1
    area = .5 * R ** 2 * 4 * nc * np.sin(2 * np.pi / (4 * nc))
    outer = check_mesh('HEX8', pts, cells, area * H, what)
    if len(cells) != 5 * nc ** 2 * hm or len(pts) != (5 * nc ** 2 + 2 * nc + 1) * (hm + 1):
        raise CheckFail('%s: %d cells and %d nodes, expected %d and %d' % (what, len(cells), len(pts), 5 * nc ** 2 * hm, (5 * nc ** 2 + 2 * nc + 1) * (hm + 1)))
    pts = np.asarray(pts)
    for c, f in outer:
        x = pts[list(ref.face_vertices('HEX8', cells, c, f))]
        ok = (np.abs(x[:, 2]) < 1e-7 * H).all() or (np.abs(x[:, 2] - H) < 1e-7 * H).all() or (np.abs(np.hypot(x[:, 0], x[:, 1]) - R) < 1e-7 * R).all()
        if not ok:
            raise CheckFail('%s: a face with one cell is not on the surface of the cylinder' % what)
    z = np.unique(np.round(pts[:, 2] / H * hm, 6))
    if len(z) != hm + 1 or not np.abs(z - np.arange(hm + 1)).max() <= 1e-6:
        raise CheckFail('%s: layers at %s' % (what, z * H / hm))


def run(job, ctx):
    os.environ['PATH'] = '/opt/venv/bin:' + os.environ.get('PATH', '')
    from jax_fem import generate_mesh as gm
    k = job['kind']
    if k == 'rectangle':
        for ny, d in itertools.product(range(1, job['m'] + 1), range(4)):
            def f():
                n, s = [job['nx'], ny], DOM[d][:2]
                m = gm.rectangle_mesh(*n, *s)
                if list(m.cells_dict) != ['quad']:
                    raise CheckFail('cell blocks %s' % list(m.cells_dict))
                check_box('QUAD4', m.points, m.cells_dict['quad'], n, s, 'rectangle')
            ctx.case([job['nx'], ny, d], f, nontrivial=job['nx'] * ny > 1)
    elif k == 'box':
        for ny, nz, d in itertools.product(range(1, job['m'] + 1), range(1, job['m'] + 1), range(4)):
            def f():
                n, s = [job['nx'], ny, nz], DOM[d]
                m = gm.box_mesh(*n, *s)
                if list(m.cells_dict) != ['hexahedron']:
                    raise CheckFail('cell blocks %s' % list(m.cells_dict))
                check_box('HEX8', m.points, m.cells_dict['hexahedron'], n, s, 'box')
            ctx.case([job['nx'], ny, nz, d], f, nontrivial=job['nx'] * ny * nz > 1)
    elif k == 'gmsh':
        ele = job['ele']
        for i, (ny, nz, d) in enumerate(itertools.product(range(1, job['n'][0] + 1), range(1, job['n'][1] + 1), job['dom'])):
            def f():
                n, s = [job['nx'], ny, nz], DOM[d]
                m = gm.box_mesh_gmsh(*n, *s, data_dir=os.path.join(ctx.scratch, 'a', str(i % 2)), ele_type=ele)
                ct = ref.ELE[ele]['meshio']
                if list(m.cells_dict) != [ct]:
                    raise CheckFail('cell blocks %s' % list(m.cells_dict))
                check_box(ele, m.points, m.cells_dict[ct], n, s, 'gmsh box', ele.startswith('HEX'))
            ctx.case([ele, job['nx'], ny, nz, d], f)
        if job['nx'] == 1:
            def f():
                try:
                    gm.box_mesh_gmsh(1, 1, 1, 1., 1., 1., data_dir=ctx.scratch, ele_type='HEX20')
                except AssertionError:
                    return 'refused'
                raise CheckFail('HEX20 must be refused')
            ctx.case(['HEX20'], f, nontrivial=False)
    elif k == 'cylinder':
        for h, (R, H, rr) in itertools.product(range(1, job['h'] + 1), [(5, 10, .4), (1., 2., .5), (3, 1, .6)]):
            def f():
                m = gm.cylinder_mesh_gmsh(os.path.join(ctx.scratch, 'c'), R=R, H=H, circle_mesh=job['circle'], hight_mesh=h, rect_ratio=rr)
                check_cylinder(m.points, m.cells_dict['hexahedron'], R, H, job['circle'], h, 'cylinder')
                # the inner square reaches rect_ratio * R
                x = np.asarray(m.points)
                want = np.array([s * rr * R for s in (-1, 1)])
                d = np.abs(x[:, None, :2] - np.array(list(itertools.product(want, want)))[None]).max(-1).min(0)
                if not d.max() <= 1e-7 * R:
                    raise CheckFail('the corners of the inner square are not at rect_ratio * R')
            ctx.case([job['circle'], h, R, H, rr], f)

        def defaults():
            m = gm.cylinder_mesh_gmsh(os.path.join(ctx.scratch, 'c'))
            check_cylinder(m.points, m.cells_dict['hexahedron'], 5, 10, 5, 20, 'cylinder')
            if not np.any(np.abs(np.asarray(m.points)[:, :2] - 2.).max(-1) < 1e-6):
                raise CheckFail('the corners of the inner square are not at 0.4 R')
        if job['circle'] == 2:
            ctx.case(['defaults'], defaults)
    elif k == 'history':
        # 0 gmsh TET4 box, 1 gmsh HEX27 box, 2 cylinder, 3 structured box; all in one directory
        for n, rest in enumerate(itertools.product(range(4), repeat=job['depth'] - 1)):
            word = job['pre'] + list(rest)

            def f():
                d = os.path.join(ctx.scratch, 'h%d' % (n % 3), 'nested', 'dir')
                got = []
                for t, o in enumerate(word):
                    s = [1. + t, 2., .5]
                    if o == 0:
                        m = gm.box_mesh_gmsh(1 + t % 2, 1, 2, *s, data_dir=d, ele_type='TET4')
                    elif o == 1:
                        m = gm.box_mesh_gmsh(1, 1 + t % 2, 1, *s, data_dir=d, ele_type='HEX27')
                    elif o == 2:
                        m = gm.cylinder_mesh_gmsh(d, R=1. + t, H=2., circle_mesh=2 + t % 2, hight_mesh=1 + t % 2)
                    else:
                        m = gm.box_mesh(1 + t % 2, 2, 1, *s)
                    got.append((o, t, m))
                for o, t, m in got:
                    s = [1. + t, 2., .5]
                    if o == 0:
                        check_box('TET4', m.points, m.cells_dict['tetra'], [1 + t % 2, 1, 2], s, 'call %d' % t, False)
                    elif o == 1:
                        check_box('HEX27', m.points, m.cells_dict['hexahedron27'], [1, 1 + t % 2, 1], s, 'call %d' % t)
                    elif o == 2:
                        check_cylinder(m.points, m.cells_dict['hexahedron'], 1. + t, 2., 2 + t % 2, 1 + t % 2, 'call %d' % t)
                    else:
                        check_box('HEX8', m.points, m.cells_dict['hexahedron'], [1 + t % 2, 2, 1], s, 'call %d' % t)
            ctx.case(['history', word], f)
    else:
        names(ctx, gm)


def names(ctx, gm):
    import meshio
    for ele in ref.TYPES:
        def f():
            c = gm.get_meshio_cell_type(ele)
            if c != ref.ELE[ele]['meshio']:
                raise CheckFail('%s is called %s' % (ele, c))
            pts, cells = meshes.mesh(ele, [1] * ref.ELE[ele]['dim'])
            m = meshio.Mesh(np.pad(pts, ((0, 0), (0, 3 - pts.shape[1]))), {c: cells})
            if m.cells[0].dim != ref.ELE[ele]['dim']:
                raise CheckFail('meshio knows %s with another dimension' % c)
        ctx.case(['name', ele], f)
    for bad in ('', 'tet4', 'HEX9', 'QUAD9', 'TRI', None):
        def f():
            try:
                r = gm.get_meshio_cell_type(bad)
            except NotImplementedError:
                return 'refused'
            raise CheckFail('%r is called %r' % (bad, r))
        ctx.case(['name', bad], f, nontrivial=False)
    import jax.numpy as jnp
    base = np.array([[0., 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 1], [.3, -.4, 2.]])
    for quad in itertools.permutations(range(6), 4):
        def f():
            for pts in (jnp.asarray(base), jnp.asarray(meshes.affine(base, 1))):
                q = np.asarray(gm.check_mesh_TET4(pts, jnp.asarray([quad, quad[::-1]])))
                want = [np.linalg.det((np.asarray(pts)[list(t)][1:] - np.asarray(pts)[t[0]])) for t in (quad, quad[::-1])]
                if not ref.close(q, want, 1e-12, 1e-12):
                    raise CheckFail('measures %s, expected %s' % (q, want))
        ctx.case(['tet', quad], f)
    for ele in ('QUAD4', 'TET4', 'HEX8'):
        def f():
            pts, cells = meshes.mesh(ele, [2] * ref.ELE[ele]['dim'])
            m = gm.Mesh(pts, cells, ele_type=ele)
            if not np.array_equal(np.asarray(m.points), pts) or not np.array_equal(np.asarray(m.cells), cells) or m.ele_type != ele:
                raise CheckFail('Mesh does not keep its arrays')
        ctx.case(['mesh', ele], f)
