"""C18 re-descriptions of the same model."""
import numpy as np
import solidspy.postprocesor as pos
from vlib.core import Family
from vlib import gen, model, ref

RULE = ("a case is a model and a random composition of re-descriptions (node, element and material "
        "renumbering, unused materials, local node rotation, splitting/permuting/zero loads, translation, "
        "rotation, reflection, change of units); displacements, strains, stresses and member stresses of both are compared; "
        "distinct = (model, composition)")
ASSUMPTIONS = ["tolerance 1e-12 x condition number x (distance from the origin / element size)"]
KINDS = ("continuum", "continuum", "truss", "frame", "line", "user")


class Described:
    """a re-described model with the map of results back to the original"""

    def __init__(self, m):
        self.m = m
        self.node = np.arange(m.n)            # new number of original node
        self.elem = np.arange(len(m.conn))    # position of original element
        self.R = np.eye(m.xy.shape[1])
        self.s, self.F, self.Es, self.turn = 1.0, 1.0, 1.0, 1.0


def renumber_nodes(rng, d):
    m = d.m
    p = rng.permutation(m.n) if rng.random() < 0.8 else np.arange(m.n)[::-1]
    xy, cons = np.empty_like(m.xy), np.empty_like(m.cons)
    xy[p], cons[p] = m.xy, m.cons
    lo = m.loads.copy()
    lo[:, 0] = p[m.loads[:, 0].astype(int)]
    d.m = m.reorder(xy=xy, cons=cons, conn=p[m.conn], loads=lo)
    d.node = p[d.node]


def reorder_elements(rng, d):
    m = d.m
    p = rng.permutation(len(m.conn))          # element p[i] goes to row i
    inv = np.argsort(p)
    d.m = m.reorder(conn=m.conn[p], types=m.types[p], mid=m.mid[p])
    d.elem = inv[d.elem]


def reorder_materials(rng, d):
    m = d.m
    k = len(m.mats)
    extra = int(rng.integers(0, 3))
    p = rng.permutation(k + extra)[:k]        # profile i goes to row p[i]
    mats = rng.uniform(0.1, 0.4, (k + extra, m.mats.shape[1]))
    mats[p] = m.mats
    mid = p[m.mid]
    if rng.random() < 0.3:                    # every element its own copy of its profile
        mats, mid = mats[mid], np.arange(len(m.conn))
    d.m = m.reorder(mats=mats, mid=mid)


def rotate_locals(rng, d):
    m = d.m
    conn = m.conn.copy()
    for i, t in enumerate(m.types):
        if m.user:
            name = "quad9" if m.user == "axi" else m.user
        else:
            name = {v: k for k, v in ref.TYPE_ID.items()}.get(t)
        if name:
            for _ in range(int(rng.integers(0, 4))):
                conn[i] = conn[i][ref.ROTATION[name]]
        elif rng.random() < 0.5:
            conn[i] = conn[i][::-1]           # members may be described from either end
    d.m = m.reorder(conn=conn)


def rewrite_loads(rng, d):
    m = d.m
    rows = []
    for r in m.loads:
        if rng.random() < 0.5:
            a = rng.uniform(-1, 2)
            rows += [[r[0], *(a*r[1:])], [r[0], *((1 - a)*r[1:])]]
        elif rng.random() < 0.5:
            for k in range(m.nd):
                v = np.zeros(m.nd)
                v[k] = r[1 + k]
                rows.append([r[0], *v])
        else:
            rows.append(list(r))
    rows.append([float(rng.integers(m.n))] + [0.0]*m.nd)
    held = np.argwhere(m.cons == -1)
    if len(held) and rng.random() < 0.5:      # a load on a support changes nothing
        i, k = held[int(rng.integers(len(held)))]
        v = np.zeros(m.nd)
        v[k] = np.abs(m.loads[:, 1:]).max()
        rows.append([float(i), *v])
    d.m = m.reorder(loads=np.array(rows)[rng.permutation(len(rows))])


def translate(rng, d):
    m = d.m
    L = np.ptp(m.xy, axis=0).max()
    t = rng.uniform(-1, 1, m.xy.shape[1])*L*gen.pick(rng, 1, 10, 100)
    if m.user == "axi":
        t[0] = 0
    d.m = m.reorder(xy=m.xy + t)


def rotate(rng, d):
    m = d.m
    dim = m.xy.shape[1]
    if m.user == "axi":
        return
    trans = m.cons[:, :dim]
    full = np.all((trans == -1).all(axis=1) | (trans == 0).all(axis=1))
    if full:
        R = gen.rot(rng, dim)
    elif dim == 2:
        R = np.round(gen.rot2(np.pi/2*rng.integers(1, 4)))
    else:
        R = np.eye(3)[rng.permutation(3)]
        R = R*np.linalg.det(R)
    cons = m.cons.copy()
    if not full:
        cons[:, :dim] = -np.abs(trans @ np.abs(R).T).astype(int)
    lo = m.loads.copy()
    lo[:, 1:1 + dim] = m.loads[:, 1:1 + dim] @ R.T
    d.m = m.reorder(xy=m.xy @ R.T, loads=lo, cons=cons)
    d.R = R @ d.R


TURNED = {"tri3": [0, 2, 1], "tri6": [0, 2, 1, 5, 4, 3], "quad4": [0, 3, 2, 1], "quad8": [0, 3, 2, 1, 7, 6, 5, 4],
          "quad9": [0, 3, 2, 1, 7, 6, 5, 4, 8], "tet4": [0, 2, 1, 3], "hex8": [0, 3, 2, 1, 4, 7, 6, 5]}


def reflect(rng, d):
    """mirror image, with the node lists turned over so that elements stay well oriented"""
    m = d.m
    dim = m.xy.shape[1]
    R = np.eye(dim)
    k = 1 if m.user == "axi" else int(rng.integers(dim))
    R[k, k] = -1
    name = ("quad9" if m.user == "axi" else m.user) if m.user else \
        {v: k_ for k_, v in ref.TYPE_ID.items()}.get(m.types[0])
    conn = m.conn[:, TURNED[name]] if name in TURNED else m.conn
    lo = m.loads.copy()
    lo[:, 1:1 + dim] = m.loads[:, 1:1 + dim] @ R
    if m.nd > dim:                            # moments and rotations change their sense
        lo[:, 1 + dim:] *= -1
        d.turn *= -1
    d.m = m.reorder(xy=m.xy @ R, loads=lo, conn=conn)
    d.R = R @ d.R


def units(rng, d):
    m = d.m
    s, F = gen.log_uniform(rng, 1e-4, 1e4), gen.log_uniform(rng, 1e-6, 1e6)
    if rng.random() < 0.3:
        s, F = gen.pick(rng, (1000.0, 1.0), (1e-3, 1.0), (1.0, 1e3), (1.0, 1e-9))
    plane = m.types[0] in (1, 2, 3, 4) or m.user == "quad8"
    e = F/s if plane else F/s**2
    mats = np.array(m.mats, float)
    mats[:, 0] *= e
    if np.all(m.types == 5):
        mats[:, 0] *= s                       # spring constants are forces per length
    elif np.any(m.types == 5):
        return
    elif m.types[0] == 6:
        mats[:, 1] *= s**2
    elif m.types[0] in (7, 8):
        mats[:, 1] *= s**4
        if m.types[0] == 8:
            mats[:, 2] *= s**2
    lo = m.loads.copy()
    lo[:, 1:] *= F
    if m.nd == 3 and not m.user:
        lo[:, 3] *= s
    d.m = m.reorder(xy=m.xy*s, mats=mats, loads=lo)
    d.s *= s
    d.F *= F
    d.Es *= e


def add_nodes(rng, d):
    """nodes that no element uses, anywhere in the table"""
    d.m, rows = model.spread(rng, d.m)
    d.node = rows[d.node]


OPS = [renumber_nodes, reorder_elements, reorder_materials, rotate_locals, rewrite_loads, translate, rotate, units, reflect, add_nodes]


def results(ctx, m, rng, recover, route):
    if route == "auto":
        if recover:
            U, E, S = model.auto(ctx, m, rng, strains=True)
            return np.asarray(U), np.asarray(E), np.asarray(S)
        return np.asarray(model.auto(ctx, m, rng)), None, None
    out = model.modular(ctx, m, rng, dense=route == "dense")
    E = S = None
    d = out["data"]
    if recover:
        E, S = ctx.call("strain_nodes", pos.strain_nodes, d["nodes"], d["elements"], d["mats"], out["U"])
    elif np.all(m.types == 6):
        S = ctx.call("stress_truss", pos.stress_truss, d["nodes"], d["elements"], d["mats"], out["U"])
    return out["U"], E, S


def hmin(m):
    c = m.xy[m.conn]
    k = 2 if m.conn.shape[1] == 2 else min(m.conn.shape[1], 4)
    return min(np.linalg.norm(c[:, i] - c[:, j], axis=1).min() for i in range(k) for j in range(i))


def layers(rng, m):
    """some elements twice or more, next to each other or not, with any of the materials"""
    n = len(m.conn)
    k = rng.integers(0, n, int(rng.integers(1, 4)))
    i = np.append(np.arange(n), k)
    mid = np.append(m.mid, np.where(rng.random(len(k)) < 0.5, m.mid[k], rng.integers(0, len(m.mats), len(k))))
    if rng.random() < 0.7:
        o = np.argsort(i, kind="stable")
        i, mid = i[o], mid[o]
    return m.reorder(conn=m.conn[i], types=m.types[i], mid=mid)


def redescribe(ctx):
    rng = ctx.rng
    m, kind = model.any_model(rng, KINDS)
    if rng.random() < 0.2:
        m = layers(rng, m)
        ctx.event("models with elements on the same nodes")
    if rng.random() < 0.5:                    # free to rotate by any angle
        dim = m.xy.shape[1]
        if m.user != "axi" and kind != "line":
            c = m.cons.copy()
            hold = (c[:, :dim] == -1).any(axis=1)
            c[hold, :dim] = -1
            m.cons = c
    d = Described(m)
    if ctx.index % 3 == 0:
        ops = [OPS[(ctx.index//3) % len(OPS)]]
    else:
        ops = [OPS[i] for i in rng.permutation(len(OPS))[:int(rng.integers(2, len(OPS) + 1))]]
    for op in ops:
        op(rng, d)
    if kind == "line" and not np.allclose(np.abs(d.R), np.round(np.abs(d.R))):
        ctx.event("oblique lines")
    names = "+".join(o.__name__ for o in ops)
    recover = kind == "continuum" and len(np.unique(m.conn)) == m.n
    routes = ["sparse", "dense"] + ([] if m.user else ["auto"])
    U, E, S = results(ctx, m, None, recover, gen.pick(rng, *routes) if kind != "truss" else "sparse")
    V, G, T = results(ctx, d.m, rng, recover, gen.pick(rng, *routes) if kind != "truss" else "sparse")
    K, _ = m.full()
    fr = m.free()
    cond = model.scaled_cond(K[np.ix_(fr, fr)])
    amp = 1 + max(np.abs(x.xy).max()/hmin(x) for x in (m, d.m))
    tol = 1e-13*cond*amp + 1e-10
    if tol > 1e-2:
        ctx.event("too ill-conditioned to compare")
        return
    what = "%s re-described by %s" % (m.user or kind, names)
    dim = m.xy.shape[1]
    W = np.asarray(V)[d.node]
    back = W.copy()
    back[:, :dim] = W[:, :dim]/d.s @ d.R
    back[:, dim:] *= d.turn
    w = model.dof_scale(m)
    um = np.abs(U*w).max() or 1.0
    ctx.close(back*w, U*w, what + ": displacements", tol, um)
    if recover:
        R = d.R
        G, T = np.asarray(G)[d.node], np.asarray(T)[d.node]
        for name, got, want, half, unit, ref_ in (
                ("strains", G, E, 0.5, 1.0, um/hmin(m)),
                ("stresses", T, S, 1.0, d.Es, um/hmin(m)*2*np.abs(m.mats[:, 0]).max()/(1 - 0.9**2))):
            t = np.zeros((m.n, 2, 2))
            t[:, 0, 0], t[:, 1, 1] = got[:, 0], got[:, 1]
            t[:, 0, 1] = t[:, 1, 0] = half*got[:, 2]
            t = np.einsum("ji,njk,kl->nil", R, t, R)/unit
            b = np.column_stack([t[:, 0, 0], t[:, 1, 1], t[:, 0, 1]/half])
            ctx.close(b, want, what + ": " + name, tol, ref_)
    elif S is not None:
        ctx.close(np.asarray(T)[d.elem]/(d.F/d.s**2), S, what + ": member stresses", tol,
                  max(np.abs(S).max(), np.abs(m.mats[:, 0]).max()*um/hmin(m)))
    ctx.event("compositions with " + ops[0].__name__)
    ctx.high("largest condition number", cond)
    ctx.key(m.xy, m.conn, names)
    ctx.note(kind=m.user or kind, operations=names, nodes=m.n, cond=cond, tolerance=tol)


FAMILIES = [Family(redescribe, 480, 9000)]
