"""Weak forms written once over an array namespace and used twice: inside jax_fem Problems and in the numpy reference.

A form is a dict
  vecs:  components per variable           eles: element type per variable
  T/M/U: names of tensor map, mass map, universal volume kernel (None = absent); T and M only for one variable
  surf:  list of [face-set name, map name or None, universal name or None]
  iv:    0 none, 1 scalar per quadrature point, 2 scalar and 2-vector per quadrature point, 3 the same in nested containers
"""
import numpy as np
from . import ref, meshes


def _A(v, d):
    k = np.arange(v * d * v * d).reshape(v * d, v * d)
    return (2. * np.eye(v * d) + .35 * np.sin(1. + 1.7 * k)).reshape(v, d, v, d)


def _amp(xp, base, ivs, nd):
    """Scale by the internal variables: nd trailing axes of base are not batch axes."""
    if len(ivs) == 0:
        return base
    out = base * ivs[0][(Ellipsis,) + (None,) * nd]
    if len(ivs) > 1:
        v = ivs[1]['v'] if isinstance(ivs[1], dict) else ivs[1]
        out = out + .3 * base * (v[..., 0] - 2. * v[..., 1])[(Ellipsis,) + (None,) * nd]
        if isinstance(ivs[1], dict):
            out = out * ivs[1]['w'][0][(Ellipsis,) + (None,) * nd]
    return out


# ---- tensor maps: gradient (..., vec, dim)
def t_lin(xp, g, ivs):
    return _amp(xp, 1.7 * g, ivs, 2)


def t_nonsym(xp, g, ivs):
    return _amp(xp, xp.einsum('vdwe,...we->...vd', _A(*g.shape[-2:]), g), ivs, 2)


def t_nl(xp, g, ivs):
    s = xp.sum(g * g, axis=(-2, -1))[..., None, None]
    return _amp(xp, (1. + .3 * s) * g + .2 * g * g[..., :1, :], ivs, 2)


# ---- mass maps
def m_lin(xp, u, x, ivs):
    return _amp(xp, 2. * u, ivs, 1)


def m_src(xp, u, x, ivs):
    return _amp(xp, u * 0. + 1. + x[..., :1] - 2. * x[..., 1:2], ivs, 1)


def m_nl(xp, u, x, ivs):
    return _amp(xp, u ** 3 + (1. + x[..., :1] ** 2) * u + .4 * xp.sum(u, axis=-1)[..., None] * u[..., :1] - xp.sin(x[..., 1:2]), ivs, 1)


# ---- universal volume forms: lists per variable
def u_lin(xp, us, gs, x, ivs):
    out = []
    for i, (u, g) in enumerate(zip(us, gs)):
        f = (1. + i) * g
        s = .5 * u
        for j, (w, h) in enumerate(zip(us, gs)):
            if j != i:
                f = f + .3 * (j + 1) * xp.sum(w, axis=-1)[..., None, None] * np.cos(np.arange(np.prod(g.shape[-2:])).reshape(g.shape[-2:]) + i)
                s = s - .25 * (i + 1) * xp.sum(h, axis=(-2, -1))[..., None] * np.sin(1. + np.arange(u.shape[-1]))
        out.append((_amp(xp, f, ivs, 2), _amp(xp, s, ivs, 1)))
    return out


def u_nl(xp, us, gs, x, ivs):
    tot = sum(xp.sum(u * u, axis=-1) for u in us)
    lin = u_lin(xp, us, gs, x, ivs)
    out = []
    for i, ((f, s), u, g) in enumerate(zip(lin, us, gs)):
        f = f + .1 * tot[..., None, None] * g
        s = s + _amp(xp, xp.sum(g, axis=-1) * u * .4 + x[..., :1], ivs, 1)
        out.append((f, s))
    return out


# ---- surface forms
def s_lin(xp, u, x, ivs):
    return _amp(xp, .8 * u + x[..., :1], ivs, 1)


def s_load(xp, u, x, ivs):
    return _amp(xp, 0. * u + 1.5 - x[..., 1:2], ivs, 1)


def s_nl(xp, u, x, ivs):
    return _amp(xp, u ** 3 + u * x[..., :1] + .3 * xp.sum(u, axis=-1)[..., None], ivs, 1)


def q_lin(xp, us, gs, x, ivs):
    return [_amp(xp, (.7 + i) * u + .2 * sum(xp.sum(g, axis=(-2, -1)) for g in gs)[..., None], ivs, 1) for i, u in enumerate(us)]


def q_nl(xp, us, gs, x, ivs):
    tot = sum(xp.sum(u * u, axis=-1) for u in us)
    return [_amp(xp, (1. + tot)[..., None] * u + .5 * xp.sum(g, axis=-1) * u[..., :1] - x[..., :1], ivs, 1) for u, g in zip(us, gs)]


FN = dict(lin=t_lin, nonsym=t_nonsym, nl=t_nl)
MN = dict(lin=m_lin, src=m_src, nl=m_nl)
UN = dict(lin=u_lin, nl=u_nl)
SN = dict(lin=s_lin, load=s_load, nl=s_nl)
QN = dict(lin=q_lin, nl=q_nl)


def frame(pts):
    """Coordinates in which the point set is an axis-aligned box (the inverse of the affine menu), else the identity."""
    pts = np.asarray(pts)
    dim = pts.shape[1]
    e = np.eye(dim)
    for k in (None, 0, 1):
        o = np.zeros(dim) if k is None else meshes.affine(np.zeros((1, dim)), k)[0]
        A = e if k is None else (meshes.affine(e, k) - o).T
        q = (pts - o) @ np.linalg.inv(A).T
        lo, hi = q.min(0), q.max(0)
        corners = np.array([[hi[d] if (c >> d) & 1 else lo[d] for d in range(dim)] for c in range(2 ** dim)])
        if np.abs(corners[:, None] - q[None]).max(-1).min(1).max() < 1e-8:
            return np.linalg.inv(A), o, lo, hi
    return e, np.zeros(dim), pts.min(0), pts.max(0)


def face_mask(name, pts):
    return _mask_on(name, pts, pts)


def face_fn(name, pts):
    import jax.numpy as jnp
    if name == 'all':
        return lambda p: True
    if name == 'none':
        return lambda p: False
    B, o, lo, hi = frame(pts)
    d = 'xyz'.index(name[0])
    e = (hi if name[1] == '+' else lo)[d]
    tol = 1e-6 * (1. + np.abs(hi - lo).max())
    return lambda p: jnp.isclose(jnp.dot(B[d], jnp.asarray(p) - o), e, rtol=0., atol=tol)


def iv_fields(n, x, shift=0.):
    """Internal variables as functions of the quadrature point coordinates."""
    if n == 0:
        return []
    s = 1. + .3 * np.sin(2. * x[..., 0] + shift) + .2 * x[..., 1]
    if n == 1:
        return [s]
    v = np.stack([.4 * np.cos(x[..., 1] + shift), .2 * x[..., 0] - .1], axis=-1)
    if n == 3:  # nested containers of arrays
        return [s, {'v': v, 'w': [1. + .1 * x[..., 0]]}]
    return [s, v]


def jx(ivs):
    import jax
    import jax.numpy as jnp
    return jax.tree_util.tree_map(jnp.asarray, ivs)


def make_problem_class():
    import jax
    import jax.numpy as jnp
    from jax_fem.problem import Problem

    class Base(Problem):
        """additional_info = (form,)"""

        def custom_init(self, form):
            self.form = form
            if form.get('T'):
                t = FN[form['T']]
                self.get_tensor_map = lambda: (lambda g, *iv: t(jnp, g, iv))
            if form.get('M'):
                m = MN[form['M']]
                self.get_mass_map = lambda: (lambda u, x, *iv: m(jnp, u, x, iv))
            if form.get('U'):
                self.get_universal_kernel = lambda: self._universal(UN[form['U']])
            surf = form.get('surf', [])
            if surf and all(s[1] for s in surf):
                self.get_surface_maps = lambda: [(lambda f: (lambda u, x, *iv: f(jnp, u, x, iv)))(SN[s[1]]) for s in surf]
            if surf and all(s[2] for s in surf):
                self.get_universal_kernels_surface = lambda: [self._universal_face(QN[s[2]]) for s in surf]
            n = form.get('iv', 0)
            if n:
                self.internal_vars = jx(iv_fields(n, np.asarray(self.physical_quad_points)))
                self.internal_vars_surfaces = [jx(iv_fields(n, np.asarray(x), 1. + k))
                                               for k, x in enumerate(self.physical_surface_quad_points)]

        def _universal(self, fn):
            def kernel(cell_sol_flat, x, shape_grads, JxW, v_grads_JxW, *iv):
                sols = self.unflatten_fn_dof(cell_sol_flat)
                c = self.num_nodes_cumsum
                us, gs = [], []
                for i, s in enumerate(sols):
                    sg = shape_grads[:, c[i]:c[i + 1], :]
                    us.append(jnp.sum(s[None] * self.fes[i].shape_vals[:, :, None], axis=1))
                    gs.append(jnp.sum(s[None, :, :, None] * sg[:, :, None, :], axis=1))
                out = []
                for i, (f, q) in enumerate(fn(jnp, us, gs, x, iv)):
                    vg = v_grads_JxW[:, c[i]:c[i + 1], :, :]
                    val = jnp.sum(f[:, None] * vg, axis=(0, -1))
                    val = val + jnp.sum(q[:, None, :] * self.fes[i].shape_vals[:, :, None] * JxW[i][:, None, None], axis=0)
                    out.append(val)
                return jax.flatten_util.ravel_pytree(out)[0]
            return kernel

        def _universal_face(self, fn):
            def kernel(cell_sol_flat, x, shape_vals, shape_grads, nanson, *iv):
                sols = self.unflatten_fn_dof(cell_sol_flat)
                c = self.num_nodes_cumsum
                us, gs = [], []
                for i, s in enumerate(sols):
                    us.append(jnp.sum(s[None] * shape_vals[:, c[i]:c[i + 1], None], axis=1))
                    gs.append(jnp.sum(s[None, :, :, None] * shape_grads[:, c[i]:c[i + 1], None, :], axis=1))
                out = []
                for i, q in enumerate(fn(jnp, us, gs, x, iv)):
                    out.append(jnp.sum(q[:, None, :] * shape_vals[:, c[i]:c[i + 1], None] * nanson[i][:, None, None], axis=0))
                return jax.flatten_util.ravel_pytree(out)[0]
            return kernel

        def set_params(self, params):
            """params: dict with any of 'iv', 'siv', 'points', 'vals'."""
            import jax.numpy as jnp
            if 'points' in params:
                self.initialize_geometric_quantities([params['points']] + [fe.points for fe in self.fes[1:]])
            if 'iv' in params:
                self.internal_vars = list(params['iv'])
            if 'siv' in params:
                self.internal_vars_surfaces = [list(s) for s in params['siv']]
            if 'vals' in params:
                for fe, v in zip(self.fes, params['vals']):
                    fe.vals_list = list(v)
    return Base


def order_for(eles):
    return None if len(eles) == 1 else 2


def form_meshes(form, pts, cells):
    """Mesh arrays per variable from a linear mesh (pts, cells) of the base shape."""
    return [meshes.upgrade(e, pts, cells) for e in form['eles']]


def build(cls, form, mm, bc=None, order=None, location_fns=None):
    """jax_fem Problem for a form on the mesh arrays mm = [(points, cells)] per variable."""
    from jax_fem.generate_mesh import Mesh
    eles, vecs = form['eles'], form['vecs']
    dim = ref.ELE[eles[0]]['dim']
    ms = [Mesh(p, c, ele_type=e) for (p, c), e in zip(mm, eles)]
    loc = [face_fn(s[0], mm[0][0]) for s in form.get('surf', [])] or None
    if location_fns is not None:
        loc = location_fns
    one = len(eles) == 1
    order = order if order is not None else order_for(eles)
    return cls(ms[0] if one else ms, vec=vecs[0] if one else list(vecs), dim=dim, ele_type=eles[0] if one else list(eles),
               quadrature_order=order if one else [order] * len(eles),
               dirichlet_bc_info=bc if one else (bc or [None] * len(eles)), location_fns=loc, additional_info=(form,))


def reference(form, mm, order=None):
    """Reference model and its internal variables."""
    order = order if order is not None else order_for(form['eles'])
    spaces = [ref.Space(e, p, c, v, order) for e, v, (p, c) in zip(form['eles'], form['vecs'], mm)]

    def volume(xp, us, gs, x, ivs):
        out = [[None, None] for _ in us]

        def add(i, k, v):
            out[i][k] = v if out[i][k] is None else out[i][k] + v
        if form.get('T'):
            add(0, 0, FN[form['T']](xp, gs[0], ivs))
        if form.get('M'):
            add(0, 1, MN[form['M']](xp, us[0], x, ivs))
        if form.get('U'):
            for i, (f, s) in enumerate(UN[form['U']](xp, us, gs, x, ivs)):
                add(i, 0, f)
                add(i, 1, s)
        return out
    surfaces = []
    pts, cells = mm[0]
    for name, sm, su in form.get('surf', []):
        mask = face_mask(name, pts)
        assert mask.any() or name == 'none', 'empty face set ' + name
        faces = [(c, f) for c, f in ref.all_faces(form['eles'][0], cells) if all(mask[v] for v in ref.face_vertices(form['eles'][0], cells, c, f))]

        def fn(xp, us, gs, x, ivs, sm=sm, su=su):
            out = [None] * len(us)
            if sm:
                out[0] = SN[sm](xp, us[0], x, ivs)
            if su:
                for i, s in enumerate(QN[su](xp, us, gs, x, ivs)):
                    out[i] = s if out[i] is None else out[i] + s
            return out
        surfaces.append((faces, fn))
    r = ref.RefModel(spaces, volume, surfaces)
    return r


def ref_ivs(form, r):
    n = form.get('iv', 0)
    return (iv_fields(n, r.geo[0]['x']), [iv_fields(n, g[0]['x'], 1. + k) for k, g in enumerate(r.fgeo)])


def state(n, k):
    """Deterministic nodal states: 0 zero, 1.. smooth pseudo-irregular vectors."""
    if k == 0:
        return np.zeros(n)
    i = np.arange(n)
    return (.5 + .2 * k) * np.sin(1.3 * k + 2.1 * i) + .1 * np.cos(.7 * i * k)


def split_list(p, u):
    """Flat vector -> sol_list of a problem (numpy arrays)."""
    out, o = [], 0
    for fe in p.fes:
        n = fe.num_total_nodes * fe.vec
        out.append(np.asarray(u[o:o + n]).reshape(fe.num_total_nodes, fe.vec))
        o += n
    return out


def flat(sol_list):
    return np.concatenate([np.asarray(s).reshape(-1) for s in sol_list])


# ---- Dirichlet menus: condition = [var, node predicate name, component, value name]
VALS = {'zero': lambda x: 0., 'const': lambda x: .3, 'x': lambda x: .2 * x[0] - .1 * x[1], 'xx': lambda x: .1 * x[0] * x[1] + .05}


def bc_info(conds, nvars, pts0):
    """dirichlet_bc_info argument for build()."""
    per = [[[], [], []] for _ in range(nvars)]
    for var, name, comp, val in conds:
        per[var][0].append(face_fn(name, pts0))
        per[var][1].append(comp)
        per[var][2].append(VALS[val])
    infos = [p if p[0] else None for p in per]
    return infos[0] if nvars == 1 else infos


def ref_bc(conds, r):
    """[(dofs, values)] in the order fes are visited (variable by variable, condition by condition)."""
    out = []
    for var in range(len(r.spaces)):
        for v, name, comp, val in conds:
            if v != var:
                continue
            s = r.spaces[var]
            lo = r.spaces[0].points
            mask = _mask_on(name, lo, s.points)
            n = np.where(mask)[0]
            assert len(n) or name == 'none', 'empty node set ' + name
            out.append((r.off[var] + n * s.vec + comp, np.array([float(VALS[val](p)) for p in s.points[n]])))
    return out


def _mask_on(name, base, pts):
    if name == 'all':
        return np.ones(len(pts), bool)
    if name == 'none':
        return np.zeros(len(pts), bool)
    B, o, lo, hi = frame(base)
    d = 'xyz'.index(name[0])
    e = hi if name[1] == '+' else lo
    return np.abs((pts - o) @ B[d] - e[d]) < 1e-6 * (1. + np.abs(hi - lo).max())
