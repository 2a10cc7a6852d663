"""C20 nodal strain and stress recovery."""
import numpy as np
import solidspy.femutil as fem
import solidspy.postprocesor as pos
from vlib.core import Family
from vlib import gen, model, ref

RULE = ("a case is a mesh of one element family with several materials and a displacement field (solution, "
        "linear, quadratic, random); the oracle recomputes every element's strain at the integration point "
        "nearest each node (parent coordinates), averages, and applies each element's own plane-stress law; "
        "distinct = (mesh, field)")
ASSUMPTIONS = ["integration points: the rule used for the element's stiffness (3/7-point triangles, 2x2, 3x3)",
               "nodes without elements are not examined"]

STR = {"tri3": fem.str_el3, "tri6": fem.str_el6, "quad4": fem.str_el4, "quad9": fem.str_el9}


def points(name):
    """integration points ordered as the nodes they are nearest to"""
    if name == "tri3":
        p = np.array([(1/6, 1/6), (2/3, 1/6), (1/6, 2/3)])
    elif name == "tri6":
        p = ref.radon7()[0]
    else:
        p = ref.box_rule(2 if name == "quad4" else 3, 2)[0]
    X = np.array(ref.ELEMS[name]["nodes"], float)
    d = np.linalg.norm(X[:, None] - p[None], axis=2)
    k = d.argmin(axis=1)
    assert len(set(k)) == len(k) and np.all(np.sort(d, axis=1)[:, 1] - d.min(axis=1) > 1e-3)
    return p[k], p


NEAR = {n: points(n) for n in STR}


def strain(name, c, u, pt):
    _, dNx, _ = ref.geom(name, c, pt)
    return ref.bmat(dNx) @ u


def element(ctx):
    """strain and position at each reported integration point"""
    rng = ctx.rng
    name = ["tri3", "tri6", "quad4", "quad9"][ctx.index % 4]
    c, mode = gen.coords(rng, name)
    cf = np.asarray(c, float)
    L = np.ptp(cf, axis=0).max()
    kind = gen.pick(rng, "random", "linear", "rigid", "int")
    if kind == "linear":
        G = rng.normal(size=(2, 2))
        u = ((cf - cf.mean(axis=0)) @ G.T).ravel()
    elif kind == "rigid":
        u = ref.rigid_modes(cf) @ rng.normal(size=3)
    elif kind == "int":
        u = rng.integers(-3, 4, cf.size).astype(float)
    else:
        u = rng.normal(size=cf.size)*gen.log_uniform(rng, 1e-6, 1e3)
    eps, xl = ctx.call("str_el(%s)" % name, STR[name], gen.dress(rng, c), gen.dress(rng, u))
    eps, xl = np.asarray(eps), np.asarray(xl)
    near, allp = NEAR[name]
    ctx.ok(eps.shape == (len(allp), 3) and xl.shape == (len(allp), 2),
           "%s: shapes %s %s" % (name, eps.shape, xl.shape))
    amp = 1 + np.abs(cf).max()/L
    want_x = np.array([ref.basis(name, p)[0] @ cf for p in allp])
    d = np.linalg.norm(xl[:, None] - want_x[None], axis=2)
    k = d.argmin(axis=1)
    ctx.ok(sorted(k) == list(range(len(allp))), "%s: reported positions are not its integration points" % name,
           reported=xl, expected=want_x)
    ctx.close(xl, want_x[k], "%s: integration point positions" % name, 1e-12*amp, L)
    E = np.array([strain(name, cf, u, allp[i]) for i in k])
    h = min(min(np.linalg.norm(cf[i] - cf[j]) for i in range(3) for j in range(i)),
            ref.min_det(name, cf)[0]/L)          # thickness of long thin elements
    ctx.close(eps, E, "%s: strains at its integration points" % name, 1e-11*amp, np.abs(u).max()/h or 1.0)
    for i, p in enumerate(near):             # row i belongs to node i
        ctx.close(xl[i], ref.basis(name, p)[0] @ cf, "%s: row %d is not next to node %d" % (name, i, i),
                  1e-12*amp, L)
    if kind == "linear":
        want = np.array([G[0, 0], G[1, 1], G[0, 1] + G[1, 0]])
        ctx.close(eps, np.tile(want, (len(eps), 1)), "%s: linear field" % name, 1e-11*amp*L/h, 1.0)
    if kind == "rigid":
        ctx.close(eps, 0*eps, "%s: rigid motion" % name, 1e-11*amp, np.abs(u).max()/h)
    ctx.event("integration points", len(allp))
    ctx.key(name, cf, u)
    ctx.note(element=name, mode=mode, field=kind)


def fan(rng, name):
    """many elements around one node"""
    n = int(gen.pick(rng, rng.integers(5, 20), rng.integers(20, 130), rng.integers(128, 300)))
    t = (np.arange(n) + rng.uniform(-0.2, 0.2, n))*2*np.pi/n
    r = rng.uniform(0.9, 1.1, n)
    c = np.zeros((1, 2))
    a = np.column_stack([np.cos(t), np.sin(t)])*r[:, None]
    nxt = np.roll(np.arange(n), -1)
    if name.startswith("tri"):
        xy = np.vstack([c, a])
        conn = np.column_stack([np.zeros(n, int), 1 + np.arange(n), 1 + nxt])
    else:
        tm = t + ((np.roll(t, -1) - t) % (2*np.pi))/2
        b = np.column_stack([np.cos(tm), np.sin(tm)])*rng.uniform(1.5, 1.9, n)[:, None]
        xy = np.vstack([c, a, b])
        conn = np.column_stack([np.zeros(n, int), 1 + np.arange(n), 1 + n + np.arange(n), 1 + nxt])
    if name in ("tri6", "quad9"):
        xy, conn = gen.elevate(rng, xy, conn, name)
    s = gen.scale(rng, 1e-3, 1e3)
    xy = (xy + rng.uniform(-1, 1, 2))*s
    p = rng.permutation(len(xy))
    new = np.empty_like(xy)
    new[p] = xy
    conn = p[conn][rng.permutation(n)]
    mats = gen.materials(rng)
    cons = gen.clamp(rng, new, 2)
    return model.Model(new, conn, ref.TYPE_ID[name], mats, rng.integers(0, len(mats), n), cons,
                       gen.loads(rng, len(new), 2))


def mesh(ctx):
    rng = ctx.rng
    name = ["tri3", "tri6", "quad4", "quad9"][ctx.index % 4]
    size = (12, 9) if ctx.index % 60 in (20, 21, 22, 23) else None
    round_ = ctx.index % 12 in (4, 5, 6, 7)
    m = fan(rng, name) if round_ else model.continuum(rng, name, size)
    if rng.random() < 0.15:                  # layers: elements on the same nodes
        i = np.sort(np.append(np.arange(len(m.conn)), rng.integers(0, len(m.conn), 3)))
        m = m.reorder(conn=m.conn[i], types=m.types[i], mid=rng.integers(0, len(m.mats), len(i)))
        ctx.event("meshes with elements on the same nodes")
    kind = gen.pick(rng, "solution", "linear", "random", "quadratic", "one node", "decades")
    if rng.random() < 0.3:                   # stiff and soft parts side by side
        m.mats = m.mats*10**rng.uniform(-6, 6, (len(m.mats), 1))**np.eye(m.mats.shape[1])[0]
    x = m.xy - m.xy.mean(axis=0)
    L = np.abs(x).max()
    G = rng.normal(size=(2, 2))
    if kind == "solution":
        U = model.modular(ctx, m, rng)["U"]
    elif kind == "linear":
        U = x @ G.T
    elif kind == "quadratic":
        U = x @ G.T + np.column_stack([x[:, 0]**2, x[:, 0]*x[:, 1]])/L
    elif kind == "decades":                  # quiet and loud regions of one field
        U = rng.normal(size=(m.n, 2))*10**(rng.uniform(-12, 0)*(x[:, :1] - x[:, 0].min())/np.ptp(x[:, 0]))
    elif kind == "one node":
        U = np.zeros((m.n, 2))
        U[int(rng.integers(m.n)), int(rng.integers(2))] = 1.0
    else:
        U = rng.normal(size=(m.n, 2))*gen.log_uniform(rng, 1e-6, 1e3)
    d = m.data(rng)
    E, S = ctx.call("strain_nodes", pos.strain_nodes, d["nodes"], d["elements"], d["mats"], gen.dress(rng, U))
    E, S = np.asarray(E), np.asarray(S)
    ctx.ok(E.shape == (m.n, 3) and S.shape == (m.n, 3), "strain_nodes: shapes %s %s" % (E.shape, S.shape))
    We, Ws, cnt = np.zeros((m.n, 3)), np.zeros((m.n, 3)), np.zeros(m.n)
    te, ts = np.zeros(m.n), np.zeros(m.n)       # what rounding can do at each node
    hm = np.inf
    for e, el in enumerate(m.conn):
        c = m.xy[el]
        C = ref.cstress(*m.mats[m.mid[e]][:2])
        he = min(np.linalg.norm(c[i] - c[j]) for i in range(3) for j in range(i))
        if round_:                              # thickness at the hub
            he = min(he, ref.min_det(name, c)[0]/np.ptp(c, axis=0).max())
        hm = min(hm, he)
        t = 1e-11*(1 + np.abs(m.xy).max()/he)*np.abs(U[el]).max()/he
        for i, p in zip(el, NEAR[name][0]):
            ep = strain(name, c, U[el].ravel(), p)
            We[i] += ep
            Ws[i] += C @ ep
            cnt[i] += 1
            te[i] += t
            ts[i] += t*np.abs(C).max()
    te, ts = te/cnt, ts/cnt
    We /= cnt[:, None]
    Ws /= cnt[:, None]
    amp = 1 + np.abs(m.xy).max()/hm
    what = "%s mesh of %d elements, %d materials, %s field" % (name, len(m.conn), len(m.mats), kind)
    ctx.each(E, We, what + ": nodal strains", te)
    ctx.each(S, Ws, what + ": nodal stresses", ts)
    if rng.random() < 0.15:                   # its nodes among many others
        big, rows = model.spread(rng, m)
        d = big.data(rng)
        V = rng.normal(size=(big.n, 2))*np.abs(U).max()
        V[rows] = U
        with np.errstate(all="ignore"):
            E3, S3 = ctx.call("strain_nodes", pos.strain_nodes, d["nodes"], d["elements"], d["mats"], V)
        ctx.each(np.asarray(E3)[rows], We, what + ": nodal strains with %d nodes in the table" % big.n, te)
        ctx.each(np.asarray(S3)[rows], Ws, what + ": nodal stresses with %d nodes in the table" % big.n, ts)
        ctx.high("longest node table", big.n)
    if kind == "linear":
        ctx.close(E, np.tile([G[0, 0], G[1, 1], G[0, 1] + G[1, 0]], (m.n, 1)),
                  what + ": linear field", 1e-11*amp*L/hm, 1.0)
    ctx.event("nodal values", 2*E.size)
    ctx.high("elements around a node", cnt.max())
    ctx.event("shared nodes", int((cnt > 1).sum()))
    ctx.key(m.xy, m.conn, U)
    ctx.note(family=name, elements=len(m.conn), materials=len(m.mats), columns=m.mats.shape[1], field=kind)


def workflow(ctx):
    """the workflow's strains and stresses are those of its displacements"""
    rng = ctx.rng
    name = ["tri3", "tri6", "quad4", "quad9"][ctx.index % 4]
    m = model.continuum(rng, name)
    U, E, S = model.auto(ctx, m, rng, strains=True)
    d = m.data()
    E2, S2 = ctx.call("strain_nodes", pos.strain_nodes, d["nodes"], d["elements"], d["mats"], np.asarray(U))
    ctx.close(E, E2, "strains of solids_auto", 1e-12, np.abs(E2).max() or 1.0)
    ctx.close(S, S2, "stresses of solids_auto", 1e-12, np.abs(S2).max() or 1.0)
    if len(m.mats) == 1 or np.all(m.mats[:, :2] == m.mats[0, :2]):
        ctx.close(S, np.asarray(E) @ ref.cstress(*m.mats[0, :2]).T, "stress law", 1e-10, np.abs(S2).max() or 1.0)
    # doubling the loads doubles everything
    ctx.key(m.xy, m.conn)
    ctx.note(family=name, elements=len(m.conn))


def crowd(ctx):
    """tens of thousands of elements, each with its own material"""
    rng = ctx.rng
    name = ["tri3", "quad4", "tri6", "quad9"][ctx.index % 4]
    ne = int(rng.integers(33000, 36000)) if name in ("tri3", "quad4") else int(rng.integers(8500, 10000))
    if ctx.tier == "thorough" and name in ("tri6", "quad9"):
        ne *= 4
    # a stock of elements between shared nodes, used over and over (fans around nodes, overlapping)
    c = [np.asarray(gen.coords(rng, name)[0], float) for _ in range(60)]
    c = [(x - x.mean(axis=0))/np.ptp(x, axis=0).max() + rng.uniform(-1, 1, 2) for x in c]
    xy = np.vstack(c)
    stock = np.arange(len(xy)).reshape(len(c), -1)
    pick = rng.integers(0, len(stock), ne)
    mats = np.column_stack([np.exp(rng.uniform(-2, 2, ne)), rng.uniform(0, 0.45, ne), np.ones(ne)])
    mats = mats[:, :int(rng.integers(2, 4))]
    mid = rng.permutation(ne)
    U = rng.normal(size=xy.shape)
    m = model.Model(xy, stock[pick], ref.TYPE_ID[name], mats, mid, np.zeros(xy.shape, int), np.zeros((0, 3)))
    d = m.data(rng)
    E, S = ctx.call("strain_nodes", pos.strain_nodes, d["nodes"], d["elements"], d["mats"], gen.dress(rng, U))
    E, S = np.asarray(E), np.asarray(S)
    e, nu = mats[:, 0], mats[:, 1]
    f = e/(1 - nu**2)
    law = np.zeros((ne, 3, 3))
    law[:, 0, 0] = law[:, 1, 1] = f
    law[:, 0, 1] = law[:, 1, 0] = f*nu
    law[:, 2, 2] = e/(2*(1 + nu))
    tot = np.zeros((len(stock), 3, 3))
    np.add.at(tot, pick, law[mid])
    cnt = np.bincount(pick, minlength=len(stock))
    what = "%d %s elements, %d materials" % (ne, name, ne)
    ctx.ok(E.shape == (len(xy), 3) and S.shape == (len(xy), 3), what + ": shapes %s %s" % (E.shape, S.shape))
    for s, el in enumerate(stock):
        if not cnt[s]:
            continue
        for i, p in zip(el, NEAR[name][0]):
            ep = strain(name, xy[el], U[el].ravel(), p)
            sg = tot[s]/cnt[s] @ ep
            ctx.close(E[i], ep, what + ": strain at node %d" % i, 1e-9, np.abs(ep).max())
            ctx.close(S[i], sg, what + ": stress at node %d" % i, 1e-9, np.abs(sg).max())
    ctx.high("elements in one call", ne)
    ctx.high("elements around a node", cnt.max())
    ctx.event("nodal values", 2*E.size)
    ctx.key(xy, pick[:100], mats[:100])
    ctx.note(kind="crowd", family=name, elements=ne)


FAMILIES = [Family(crowd, 4, 40), Family(element, 400, 8000), Family(mesh, 240, 5000), Family(workflow, 80, 1500)]
