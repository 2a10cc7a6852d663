"""C16 patch tests through the whole pipeline."""
import numpy as np
import scipy.sparse.linalg as spl
import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
import solidspy.uelutil as uel
from vlib.core import Family
from vlib import gen, model, ref

RULE = ("a case is an irregular mesh of one family (2D built-in types; 8-node, axisymmetric and 3D as user "
        "elements), one material, a uniform stress state with its exact consistent nodal loads and just "
        "enough supports; the computed displacements must be the linear field; distinct = (mesh, field)")
ASSUMPTIONS = ["tolerance 1e-13 x condition number (of the diagonally scaled system) + 1e-9"]


def consistent(name, xy, conn, sigma, axi=False):
    dim = xy.shape[1]
    f = np.zeros((len(xy), dim))
    pts, wts = ref.rule(name, 5)
    for el in conn:
        c = xy[el]
        g = np.zeros(dim*len(el))
        for p, w in zip(pts, wts):
            N, dNx, det = ref.geom(name, c, p)
            if axi:
                r = N @ c[:, 0]
                g += w*det*2*np.pi*r*(ref.bmat(dNx, N, r).T @ sigma)
            else:
                g += w*det*(ref.bmat(dNx).T @ sigma)
        np.add.at(f, el, g.reshape(-1, dim))
    return f


def field(rng, xy, axi=False):
    """linear displacements with a rigid part chosen by the supports"""
    dim = xy.shape[1]
    x0 = xy.mean(axis=0)
    if axi:
        a, b = rng.normal(size=2)*1e-3
        k = int(rng.integers(len(xy)))
        u = np.column_stack([a*xy[:, 0], b*(xy[:, 1] - xy[k, 1])])
        cons = np.zeros(xy.shape, int)
        cons[k, 1] = -1
        return u, cons, np.array([a, b, 0, a])
    G = rng.normal(size=(dim, dim))*1e-3
    if rng.random() < 0.3:
        G = np.diag(np.diag(G))
    u = (xy - x0) @ G.T
    R = ref.rigid_modes(xy)
    fix = model.best_supports(rng, R)
    u = u.ravel() - R @ np.linalg.solve(R[fix], u.ravel()[fix])
    u[fix] = 0.0
    cons = np.zeros(u.size, int)
    cons[fix] = -1
    S = 0.5*(G + G.T)
    eps = np.array([S[0, 0], S[1, 1], 2*S[0, 1]]) if dim == 2 else \
        np.array([S[0, 0], S[1, 1], S[2, 2], 2*S[1, 2], 2*S[0, 2], 2*S[0, 1]])
    return u.reshape(xy.shape), cons.reshape(xy.shape), eps


def load_table(rng, f):
    rows = [(i, *row) for i, row in enumerate(f)]
    if rng.random() < 0.5:                   # split some loads in two rows, shuffle
        rows = [r for i, row in enumerate(f) for r in
                ([(i, *(0.25*row)), (i, *(0.75*row))] if rng.random() < 0.3 else [(i, *row)])]
        rows = [rows[i] for i in rng.permutation(len(rows))]
    return np.array(rows)


def builtin(ctx):
    rng = ctx.rng
    name = ["tri3", "quad4", "tri6", "quad9"][ctx.index % 4]
    big = ctx.index % 60 in (30, 31, 32, 33)
    xy, conn = gen.mesh2d(rng, name, (12, 11) if big else None)
    E, nu = gen.young(rng), gen.poisson(rng)
    u, cons, eps = field(rng, xy)
    f = consistent(name, xy, conn, ref.cstress(E, nu) @ eps)
    nm = int(rng.integers(1, 4))
    mats = np.tile([E, nu, 2.0], (nm, 1))[:, :int(rng.integers(2, 4))]
    m = model.Model(xy, conn, ref.TYPE_ID[name], mats, rng.integers(0, nm, len(conn)), cons, load_table(rng, f))
    if rng.random() < 0.5:
        out = model.modular(ctx, m, rng, dense=rng.random() < 0.4)
        U, K = out["U"], out["K"]
    else:
        U = np.asarray(model.auto(ctx, m, rng))
        ctx.ok("not in equilibrium" not in ctx.stdout, "patch test of %s: reported as not in equilibrium" % name)
        K = None
    Kr, _ = m.full()
    fr = m.free()
    s = 1/np.sqrt(np.diag(Kr)[fr])
    cond = np.linalg.cond(Kr[np.ix_(fr, fr)]*s[:, None]*s[None])
    amp = 1 + np.abs(xy).max()/np.ptp(xy, axis=0).max()
    what = "patch test on %d %s elements (E=%g, nu=%g)" % (len(conn), name, E, nu)
    ctx.high("largest condition number", cond)
    ctx.close(U, u, what, 1e-13*cond*amp + 1e-9)
    ctx.key(name, xy, u)
    ctx.note(family=name, elements=len(conn), nodes=len(xy), E=E, nu=nu, strain=eps, cond=cond)


def user(ctx):
    rng = ctx.rng
    name = ["quad8", "axi", "tet4", "hex8"][ctx.index % 4]
    axi = name == "axi"
    b = "quad9" if axi else name
    if name in ("tet4", "hex8"):
        xy, conn = gen.mesh3d(rng, name)
    elif axi:
        xy, conn = gen.mesh2d(rng, b, place=False)
        xy = (xy - [xy[:, 0].min(), 0] + [gen.pick(rng, 0.0, 0.1, 2.0), 0])*gen.scale(rng, 1e-3, 1e3)
    else:
        xy, conn = gen.mesh2d(rng, b)
    dim = xy.shape[1]
    E, nu = gen.young(rng), gen.poisson(rng)
    u, cons, eps = field(rng, xy, axi)
    C = ref.c4(E, nu) if axi else (ref.cstress(E, nu) if dim == 2 else ref.c3d(E, nu))
    f = consistent(b, xy, conn, C @ eps, axi)
    elem = {"quad8": uel.elast_quad8, "axi": uel.elast_axi_quad9, "tet4": uel.elast_tet4,
            "hex8": uel.elast_hex8}[name]
    nn = conn.shape[1]
    nodes = np.column_stack([np.arange(len(xy)), xy])
    elements = np.column_stack([np.arange(len(conn)), np.full(len(conn), 10), np.zeros(len(conn)), conn]).astype(int)
    mats = np.array([[E, nu, 1.5]])
    op, bc, neq = ctx.call("DME", ass.DME, gen.dress(rng, cons), gen.dress(rng, elements), ndof_node=dim,
                           ndof_el_max=dim*nn, ndof_el=lambda t: dim*nn)
    K, M = ctx.call("assembler", ass.assembler, elements, mats, gen.dress(rng, nodes), neq, op, uel=elem)
    rhs = ctx.call("loadasem", ass.loadasem, load_table(rng, f), bc, neq, ndof_node=dim)
    x = ctx.call("static_sol", sol.static_sol, K, rhs)
    U = ctx.call("complete_disp", pos.complete_disp, bc, nodes, x, ndof_node=dim)
    Kd = K.toarray()
    s = 1/np.sqrt(np.diag(Kd))
    cond = np.linalg.cond(Kd*s[:, None]*s[None])
    amp = 1 + np.abs(xy).max()/np.ptp(xy, axis=0).max()
    ctx.high("largest condition number", cond)
    ctx.close(U, u, "patch test on %d %s user elements (E=%g, nu=%g)" % (len(conn), name, E, nu),
              1e-13*cond*amp + 1e-9)
    ctx.close(np.asarray(M.sum()), np.asarray(M.sum()), "mass", 1)
    ctx.key(name, xy, u)
    ctx.note(family=name, elements=len(conn), nodes=len(xy), E=E, nu=nu, cond=cond)


def large(ctx):
    """tens of thousands of equations, elements and materials"""
    rng = ctx.rng
    name = ["quad4", "tri3"][ctx.index % 2]
    k = int(rng.integers(100, 112)) if ctx.tier == "quick" or rng.random() < 0.7 else int(rng.integers(130, 135))
    xy, conn = gen.mesh2d(rng, name, (k, k), kind="jitter", holes=False)
    E, nu = gen.young(rng), rng.uniform(0, 0.4)
    u, cons, eps = field(rng, xy)
    sg = ref.cstress(E, nu) @ eps
    T = np.array([[sg[0], sg[2]], [sg[2], sg[1]]])
    f = np.zeros(xy.shape)                    # tractions along the straight edges of every element
    for i in range(conn.shape[1]):
        a, b = conn[:, i], conn[:, (i + 1) % conn.shape[1]]
        e = xy[b] - xy[a]
        t = 0.5*np.column_stack([e[:, 1], -e[:, 0]]) @ T
        np.add.at(f, a, t)
        np.add.at(f, b, t)
    c = xy[conn]                              # elements may run either way round: a full turn has the sign of the area
    sign = np.sign(sum((c[:, i, 0] - c[:, 0, 0])*(c[:, (i + 1) % c.shape[1], 1] - c[:, 0, 1]) -
                       (c[:, i, 1] - c[:, 0, 1])*(c[:, (i + 1) % c.shape[1], 0] - c[:, 0, 0])
                       for i in range(c.shape[1])))
    if not np.all(sign == sign[0]):
        return
    f *= sign[0]
    nm = int(gen.pick(rng, 1, len(conn)))
    mats = np.tile([E, nu, 2.0], (nm, 1))
    m = model.Model(xy, conn, ref.TYPE_ID[name], mats, rng.permutation(np.arange(len(conn)) % nm), cons, load_table(rng, f))
    out = model.modular(ctx, m, rng)
    lu = spl.splu(out["K"].tocsc())           # how far rounding can move the solution
    probe = max(np.abs(lu.solve(rng.choice([-1.0, 1.0], out["neq"]))).max() for _ in range(3))
    tol = 1e-13*abs(out["K"]).sum(axis=1).max()*probe*10 + 1e-9
    what = "patch test on %d %s elements, %d equations" % (len(conn), name, out["neq"])
    ctx.ok(tol < 1e-3, what + ": stiffness is nearly singular")
    ctx.close(out["U"], u, what, tol)
    ctx.high("equations", out["neq"])
    U = np.asarray(model.auto(ctx, m, rng))
    ctx.ok("not in equilibrium" not in ctx.stdout, what + ": reported as not in equilibrium")
    ctx.close(U, u, what + " by solids_auto", tol)
    ctx.high("largest tolerance in a large model", tol)
    ctx.key(name, xy, u)
    ctx.note(family=name, elements=len(conn), nodes=len(xy), E=E, nu=nu, tolerance=tol)


FAMILIES = [Family(large, 2, 16), Family(builtin, 240, 5000), Family(user, 100, 2000)]
