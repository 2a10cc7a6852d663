"""Models in the documented layout, their reference solution and the real pipeline."""
import numpy as np
import scipy.linalg

from vlib import gen, ref


class Model:
    """xy (n,2), conn, types (per element), mats, mid, cons (n,nd), loads"""

    def __init__(self, xy, conn, types, mats, mid, cons, loads, nd=2, user=None):
        self.user = user                     # name of a user element family
        self.xy, self.conn, self.mats, self.mid = xy, np.asarray(conn), mats, np.asarray(mid)
        self.types = np.broadcast_to(types, len(self.conn)).astype(int)
        self.cons, self.loads, self.nd = cons, loads, nd

    @property
    def n(self):
        return len(self.xy)

    def tables(self, rng=None, cons=True, idents=True):
        nodes = np.column_stack([np.arange(self.n), self.xy] + ([self.cons] if cons and not self.user else []))
        ids = np.arange(len(self.conn))
        if rng is not None and idents and rng.random() < 0.3:     # identifiers carry no meaning for the analysis
            ids = gen.pick(rng, rng.permutation(len(ids)), ids + int(rng.integers(1, 10**5)), ids[::-1]*7, 0*ids)
        elements = np.column_stack([ids, self.types, self.mid, self.conn]).astype(int)
        if rng is not None:
            return gen.dress(rng, nodes), gen.dress(rng, elements)
        return nodes, elements

    def data(self, rng=None):
        nodes, elements = self.tables(rng)
        out = {"nodes": nodes, "cons": self.cons, "elements": elements, "mats": self.mats, "loads": self.loads}
        if rng is not None:
            out["cons"] = gen.dress(rng, self.cons.astype(float) if rng.random() < 0.5 else self.cons)
            out["loads"] = gen.dress(rng, self.loads)
            out["mats"] = gen.dress(rng, self.mats, ints=False)
        return out

    # -- reference ---------------------------------------------------------
    def element_matrices(self, e):
        t = self.types[e]
        p = self.mats[self.mid[e]]
        c = self.xy[self.conn[e]]
        if self.user:
            name = "quad9" if self.user == "axi" else self.user
            return ref.element(name, c, p[0], p[1], p[2] if len(p) > 2 else 1.0, self.user == "axi")
        if t in (1, 2, 3, 4):
            name = {v: k for k, v in ref.TYPE_ID.items()}[t]
            return ref.element(name, c, p[0], p[1], p[2] if len(p) > 2 else 1.0)
        L = np.hypot(*(c[1] - c[0]))
        if t == 5:
            return ref.bar(c[0], c[1], p[0]), np.zeros((4, 4))
        if t == 6:
            return ref.bar(c[0], c[1], p[0]*p[1]/L), ref.bar_mass(c[0], c[1], p[1]*(p[2] if len(p) > 2 else 1.0))
        if t == 7:
            rho = p[2] if len(p) > 2 else 1.0
            a = p[3] if len(p) > 3 else 1.0
            return ref.frame(c[0], c[1], p[0]*p[1], 0.0, rho*a)
        rho = p[3] if len(p) > 3 else 1.0
        return ref.frame(c[0], c[1], p[0]*p[1], p[0]*p[2], rho*p[2])

    def full(self):
        ks, ms = zip(*[self.element_matrices(e) for e in range(len(self.conn))])
        nd = self.n*self.nd
        return ref.scatter(nd, self.conn, self.nd, ks), ref.scatter(nd, self.conn, self.nd, ms)

    def free(self):
        return np.flatnonzero(np.asarray(self.cons).ravel() == 0)

    def rhs(self):
        return gen.rhs_of(self.loads, self.n, self.nd).ravel()

    def solution(self):
        """reference displacements, condition number of the scaled system, full stiffness"""
        K, _ = self.full()
        u, cond = ref.solve_free(K, self.rhs(), self.free())
        return u.reshape(self.n, self.nd), cond, K

    def reorder(self, **kw):
        d = dict(xy=self.xy, conn=self.conn, types=self.types, mats=self.mats, mid=self.mid,
                 cons=self.cons, loads=self.loads, nd=self.nd, user=self.user)
        d.update(kw)
        return Model(**d)


def spread(rng, m, total=None):
    """the same model in a longer node table: its nodes at scattered rows, the others held and used by no element;
    returns the model and the rows of its nodes"""
    if total is None:
        total = m.n + int(gen.pick(rng, rng.integers(1, 6), rng.integers(130, 500), rng.integers(130, 500),
                                   rng.integers(33000, 40000), rng.integers(66000, 72000)))
    rows = rng.permutation(total)[:m.n]
    rows[int(rng.integers(m.n))] = total - 1 if total - 1 not in rows else rows[0]
    if len(np.unique(rows)) < m.n:
        rows = np.arange(total)[-m.n:]
    xy = m.xy[rng.integers(0, m.n, total)] + 0.0
    cons = np.full((total, m.nd), -1)
    xy[rows], cons[rows] = m.xy, m.cons
    lo = np.array(m.loads, float)
    if len(lo):
        lo[:, 0] = rows[lo[:, 0].astype(int)]
    return m.reorder(xy=xy, cons=cons, conn=rows[m.conn], loads=lo), rows


def company(rng, ms, stiff=6, load=6):
    """structures that do not touch each other in one set of tables, their stiffnesses and loads decades apart;
    returns the model, its parts as they are now and the rows of their nodes"""
    nc = max(m.mats.shape[1] for m in ms)
    if len({m.conn.shape[1] for m in ms}) > 1 or len({m.nd for m in ms}) > 1:
        raise ValueError("parts of different kinds")
    parts = []
    for m in ms:
        mats = np.ones((len(m.mats), nc))
        mats[:, :m.mats.shape[1]] = m.mats
        mats[:, 0] *= 10**rng.uniform(-stiff, stiff)
        lo = np.array(m.loads, float)
        lo[:, 1:] *= 10**rng.uniform(-load, load)
        parts.append(m.reorder(mats=mats, loads=lo))
    n = sum(m.n for m in parts)
    p = rng.permutation(n)
    xy, cons = np.zeros((n, parts[0].xy.shape[1])), np.zeros((n, parts[0].nd), int)
    rows, conn, types, mid, lo, at, mt = [], [], [], [], [], 0, 0
    for m in parts:
        r = p[at:at + m.n]
        xy[r], cons[r] = m.xy, m.cons
        l = np.array(m.loads, float)
        if len(l):
            l[:, 0] = r[l[:, 0].astype(int)]
        rows.append(r)
        conn.append(r[m.conn])
        types.append(m.types)
        mid.append(m.mid + mt)
        lo.append(l)
        at, mt = at + m.n, mt + len(m.mats)
    conn, types, mid, lo = np.vstack(conn), np.concatenate(types), np.concatenate(mid), np.vstack(lo)
    q, ql, qm = rng.permutation(len(conn)), rng.permutation(len(lo)), rng.permutation(mt)
    mats = np.vstack([m.mats for m in parts])
    new = np.empty_like(mats)
    new[qm] = mats
    big = Model(xy, conn[q], types[q], new, qm[mid[q]], cons, lo[ql], nd=parts[0].nd, user=parts[0].user)
    return big, parts, rows


# -- the real pipeline -------------------------------------------------------
def dme_args(m):
    if not m.user:
        return {}
    nd = m.nd*m.conn.shape[1]
    return {"ndof_el_max": nd, "ndof_el": lambda t: nd}


def uel_args(m):
    if not m.user:
        return {}
    import solidspy.uelutil as uel
    return {"uel": {"quad8": uel.elast_quad8, "axi": uel.elast_axi_quad9, "tet4": uel.elast_tet4,
                    "hex8": uel.elast_hex8}[m.user]}


def modular(ctx, m, rng=None, dense=False):
    """pre-processing, assembly, solution and completion, step by step"""
    import solidspy.assemutil as ass
    import solidspy.postprocesor as pos
    import solidspy.solutil as sol
    d = m.data(rng)
    kw = {} if m.nd == 2 else {"ndof_node": m.nd}
    op, bc, neq = ctx.call("DME", ass.DME, d["cons"], d["elements"], **kw, **dme_args(m))
    K, M = ctx.call("assembler", ass.assembler, d["elements"], d["mats"], d["nodes"], neq, op,
                    **({"sparse": False} if dense else {}), **uel_args(m))
    f = ctx.call("loadasem", ass.loadasem, d["loads"], bc, neq, **kw)
    u = ctx.call("static_sol", sol.static_sol, K, f)
    U = ctx.call("complete_disp", pos.complete_disp, bc, d["nodes"], u, **kw)
    return dict(U=np.asarray(U, float), u=u, K=K, M=M, f=f, bc=bc, neq=neq, op=op, data=d)


def auto(ctx, m, rng=None, strains=False, plots=False):
    from solidspy.solids_GUI import solids_auto
    res = ctx.call("solids_auto", solids_auto, m.data(rng), plot_contours=plots, compute_strains=strains)
    return res


# -- generated models ----------------------------------------------------------
def continuum(rng, name=None, size=None, determinate=False, cols=None, nmat=None, **kw):
    name = name or gen.pick(rng, "tri3", "quad4", "tri6", "quad9")
    xy, conn = gen.mesh2d(rng, name, size, **kw)
    mats = gen.materials(rng, nmat, cols)
    mid = rng.integers(0, len(mats), len(conn))
    cons = gen.clamp(rng, xy, 2, "determinate" if determinate else None)
    lo = gen.loads(rng, len(xy), 2)
    return Model(xy, conn, ref.TYPE_ID[name], mats, mid, cons, lo)


def _graph(rng, n, scl, extra=3):
    """well-spaced points joined by the edges of a triangulation (rigid as a truss)"""
    from scipy.spatial import Delaunay
    for _ in range(200):
        g = int(np.ceil(np.sqrt(n)))
        pts = np.array([(i % g, i//g + 0.37*(i % g)) for i in range(n)], float)
        pts += rng.uniform(-0.25, 0.25, pts.shape)
        try:
            tri = Delaunay(pts)
        except Exception:
            continue
        conn = tri.simplices
        ar = np.abs(gen._tri_area(pts, conn))
        conn = conn[ar > 0.08]
        if len(conn) == 0:
            continue
        conn = gen._largest_edge_component(conn, 3)
        if len(np.unique(conn)) != n:
            continue
        edges = sorted({tuple(sorted((int(el[i]), int(el[(i + 1) % 3])))) for el in conn for i in range(3)})
        edges = np.array(edges)
        if rng.random() < 0.4 and n > 4:       # some redundant long members
            for _ in range(int(rng.integers(1, extra + 1))):
                a, b = rng.permutation(n)[:2]
                edges = np.vstack([edges, [a, b]])
        flip = rng.random(len(edges)) < 0.5
        edges[flip] = edges[flip][:, ::-1]
        A = gen.rot(rng, 2)
        xy = (pts @ A.T + rng.uniform(-1, 1, 2)*gen.pick(rng, 0, 5))*scl
        return gen.renumber(rng, xy, edges[rng.permutation(len(edges))])
    raise RuntimeError("no graph")


def truss(rng, springs=None, n=None, twins=True):
    n = n or int(rng.integers(3, 14))
    xy, conn = _graph(rng, n, gen.scale(rng, 1e-3, 1e3))
    twin = rng.integers(0, len(conn), int(rng.integers(1, 4))) if twins and rng.random() < 0.2 else []
    if len(twin):                                 # members side by side between the same nodes
        conn = np.vstack([conn, conn[twin]])
    kind = springs if springs is not None else gen.pick(rng, "truss", "truss", "spring", "mixed")
    types = {"truss": np.full(len(conn), 6), "spring": np.full(len(conn), 5),
             "mixed": rng.choice([5, 6], len(conn))}[kind]
    nm = int(rng.integers(1, 5))
    E = gen.young(rng)
    L = np.median(np.hypot(*(xy[conn[:, 1]] - xy[conn[:, 0]]).T))
    A = gen.log_uniform(rng, 1e-4, 1e1)
    if kind == "mixed":      # one table serves both: spring constant is the first entry
        A = L*1.0
    mats = np.column_stack([E*10**rng.uniform(-0.7, 0.7, nm), A*10**rng.uniform(-0.7, 0.7, nm),
                            10**rng.uniform(-1, 1, nm)])
    if kind != "mixed" and rng.random() < 0.5 or kind == "mixed" and rng.random() < 0.5:
        mats = mats[:, :2]
    if kind == "spring" and rng.random() < 0.4:
        mats = mats[:, :1]
    cons = gen.clamp(rng, xy)
    mid = rng.integers(0, nm, len(conn))
    if len(twin) and rng.random() < 0.6:          # alike in everything
        mid[-len(twin):], types[-len(twin):] = mid[twin], types[twin]
    return Model(xy, conn, types, mats, mid, cons, gen.loads(rng, n, 2))


def frame(rng, n=None, axial=True):
    """beams with axial stiffness on a connected graph (trees allowed)"""
    n = n or int(rng.integers(2, 10))
    scl = gen.pick(rng, 1.0, 1.0, gen.log_uniform(rng, 1e-2, 1e2))
    pts = rng.uniform(0, 1, (n, 2))
    for _ in range(100):
        d = np.hypot(*(pts[:, None] - pts[None]).transpose(2, 0, 1)) + 9*np.eye(n)
        if d.min() > 0.15/np.sqrt(n):
            break
        pts = rng.uniform(0, 1, (n, 2))
    if rng.random() < 0.3:
        lattice = np.round(pts*3)                    # axis-parallel members
        if len(np.unique(lattice, axis=0)) == n:
            pts = lattice
    xy = pts*scl
    conn = [[int(rng.integers(0, i)), i] for i in range(1, n)]
    for _ in range(int(rng.integers(0, n))):
        a, b = rng.permutation(n)[:2]
        if not any(set(c) == {int(a), int(b)} for c in conn):
            conn.append([int(a), int(b)])
    conn = np.array(conn)
    flip = rng.random(len(conn)) < 0.5
    conn[flip] = conn[flip][:, ::-1]
    nm = int(rng.integers(1, 4))
    L = np.median(np.hypot(*(xy[conn[:, 1]] - xy[conn[:, 0]]).T))
    # keep axial and bending stiffness within a few decades
    A = 10**rng.uniform(-1, 0.5, nm)*scl**2*0.05
    I = A*L**2*10**rng.uniform(-3.0, -0.5, nm)
    E = np.full(nm, gen.young(rng))*10**rng.uniform(-0.5, 0.5, nm)
    mats = np.column_stack([E, I, A, 10**rng.uniform(-1, 1, nm)])
    if rng.random() < 0.5:
        mats = mats[:, :3]
    cons = np.zeros((n, 3), int)
    cons[int(rng.integers(n))] = -1
    if rng.random() < 0.5:
        k = int(rng.integers(n))
        cons[k, :2] = -1
    lo = gen.loads(rng, n, 3)
    return Model(xy, conn, 8, mats, rng.integers(0, nm, len(conn)), cons, lo, nd=3)


def beam_line(rng, n=None):
    """beams without axial deformation along one straight line (any orientation):
    displacements along the line are held where the line is axis-parallel"""
    n = n or int(rng.integers(2, 8))
    x = np.concatenate([[0.0], np.cumsum(rng.uniform(0.3, 1.5, n - 1))])*gen.pick(rng, 1.0, gen.log_uniform(rng, 1e-2, 1e2))
    horizontal = rng.random() < 0.5
    xy = np.zeros((n, 2))
    xy[:, 0 if horizontal else 1] = x*gen.pick(rng, 1, -1)
    conn = np.array([[i, i + 1] if rng.random() < 0.5 else [i + 1, i] for i in range(n - 1)])
    nm = int(rng.integers(1, 4))
    mats = np.column_stack([np.full(nm, gen.young(rng)), 10**rng.uniform(-3, 0, nm), 10**rng.uniform(-1, 1, nm),
                            10**rng.uniform(-2, 1, nm)])[:, :int(rng.integers(2, 5))]
    cons = np.zeros((n, 3), int)
    cons[:, 0 if horizontal else 1] = -1
    k = gen.pick(rng, "cantilever", "supported", "fixed", "propped")
    if k == "cantilever":
        cons[0] = -1
    elif k == "supported":
        cons[0, :2] = cons[-1, :2] = -1
    elif k == "fixed":
        cons[0] = cons[-1] = -1
    else:
        cons[0] = -1
        cons[-1, :2] = -1
    if n > 3 and rng.random() < 0.4:
        cons[n//2, :2] = -1
    xy2, conn2 = gen.renumber(rng, np.column_stack([xy, cons]), conn)
    lo = gen.loads(rng, n, 3)
    return Model(xy2[:, :2], conn2, 7, mats, rng.integers(0, nm, len(conn)), xy2[:, 2:].astype(int), lo, nd=3)


def user(rng, name=None):
    """3D, axisymmetric and 8-node models with the element routine given by the caller"""
    name = name or gen.pick(rng, "quad8", "axi", "tet4", "hex8")
    if name in ("tet4", "hex8"):
        xy, conn = gen.mesh3d(rng, name)
    elif name == "axi":
        xy, conn = gen.mesh2d(rng, "quad9", tuple(rng.integers(1, 4, 2)), place=False)
        xy = (xy - [xy[:, 0].min(), 0] + [gen.pick(rng, 0.05, 0.3, 2.0), 0])*gen.scale(rng, 1e-3, 1e3)
    else:
        xy, conn = gen.mesh2d(rng, name)
    mats = gen.materials(rng, cols=3)
    nd = xy.shape[1]
    cons = np.zeros(xy.shape, int)
    if name == "axi":
        cons[int(rng.integers(len(xy))), 1] = -1
    else:
        R = ref.rigid_modes(xy)
        cons.ravel()[best_supports(rng, R)] = -1
        if rng.random() < 0.5:
            cons[rng.integers(0, len(xy), 2)] = -1
    return Model(xy, conn, 10, mats, rng.integers(0, len(mats), len(conn)), cons,
                 gen.loads(rng, len(xy), nd), nd=nd, user=name)


def any_model(rng, kinds=("continuum", "continuum", "truss", "frame", "line")):
    k = gen.pick(rng, *kinds)
    return {"continuum": continuum, "truss": truss, "frame": frame, "line": beam_line, "user": user}[k](rng), k


def scaled_cond(K):
    """condition number after symmetric diagonal scaling"""
    if len(K) == 0:
        return 1.0
    s = 1/np.sqrt(np.abs(np.diag(K)))
    return float(np.linalg.cond(K*s[:, None]*s[None]))


def dof_scale(m):
    """weights that give rotations the unit of displacements"""
    if m.nd == 3 and not m.user:
        L = np.ptp(m.xy, axis=0).max() or 1.0
        return np.array([1.0, 1.0, L])
    return np.ones(m.nd)


def rigid(m):
    """rigid motions of a model in all its freedoms"""
    if m.user:
        return ref.rigid_modes(m.xy, m.user == "axi")
    c = m.xy - m.xy.mean(axis=0)
    L = np.abs(c).max() or 1.0
    R = np.zeros((m.n, m.nd, 3))
    R[:, 0, 0] = 1
    R[:, 1, 1] = 1
    R[:, 0, 2] = -c[:, 1]/L
    R[:, 1, 2] = c[:, 0]/L
    if m.nd == 3:
        R[:, 2, 2] = 1/L
    return R.reshape(-1, 3)


def best_supports(rng, R):
    """freedoms whose restraint removes exactly the rigid motions R, well conditioned"""
    w = rng.uniform(0.3, 1, len(R))
    _, _, piv = scipy.linalg.qr((R*w[:, None]).T, pivoting=True, mode="economic")
    return piv[:R.shape[1]]
