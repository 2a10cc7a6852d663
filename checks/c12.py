"""C12 global matrices are the scatter-sum of element matrices."""
import numpy as np
import scipy.sparse as sps
import solidspy.assemutil as ass
import solidspy.uelutil as uel
from vlib.core import Family
from vlib import gen, ref
from checks.c11 import constraints

RULE = ("a case is a mesh (irregular, renumbered, mixed materials, unused materials, extra node columns) "
        "with a constraint table, assembled dense, sparse and by default; every entry is compared with the "
        "harness's own scatter-sum; user elements additionally record the arguments they receive; "
        "distinct = (mesh, constraints, materials)")
ASSUMPTIONS = ["element matrices themselves are judged by C06-C10"]
FUN = {1: uel.elast_quad4, 2: uel.elast_tri6, 3: uel.elast_tri3, 4: uel.elast_quad9,
       5: uel.spring, 6: uel.truss2D, 7: uel.beam2DU, 8: uel.beam2D}


def expected(op_, elements, mats, xy, neq, bc, nd, fun, dtype=float):
    """own scatter-sum; equation numbers from the boundary-condition array"""
    K, M = np.zeros((neq, neq), dtype), np.zeros((neq, neq), dtype)
    AK, AM = np.zeros((2, neq, neq))
    for el in elements:
        conn = el[3:]
        k, m = fun(el)(xy[conn].copy(), mats[el[2]].copy())
        k, m = np.asarray(k), np.asarray(m)
        d = bc[conn][:, :nd].ravel()
        on = np.flatnonzero(d >= 0)
        ix, io = np.ix_(d[on], d[on]), np.ix_(on, on)
        # (a node may occur twice in one element)
        np.add.at(K, ix, k[io])
        np.add.at(M, ix, m[io])
        for A, a in ((AK, k), (AM, m)):
            # what rounding can do to an entry is measured by the largest entry of its kind in the element
            kind = np.arange(len(a)) % nd == 2 if nd == 3 and len(a) == 6 else np.zeros(len(a), bool)
            big = np.zeros(len(a))
            for w in (kind, ~kind):
                if w.any():
                    big[w] = np.sqrt(np.abs(a[np.ix_(w, w)]).max())
            np.add.at(A, ix, (np.outer(big, big) + np.abs(a))[io])
    return K, M, AK, AM


def entries(ctx, got, want, A, lab, tol=1e-12):
    """every entry to the rounding of the elements that contribute to it; exactly zero where none does"""
    ctx.events["comparisons"] += 1
    got = np.asarray(got.toarray() if sps.issparse(got) else got)
    ctx.ok(got.shape == want.shape, lab + ": shape %s instead of %s" % (got.shape, want.shape))
    if got.size == 0:
        return
    err = np.abs(got - want)
    bad = ~(err <= tol*A)
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        ctx.ok(False, lab + ": entry %s is %s instead of %s (rounding allows %.3g)" % (i, got[i], want[i], tol*A[i]))
    ctx.high("largest relative deviation of an entry", float((err/np.where(A > 0, A, 1)).max()))


def compare(ctx, what, elements, mats, nodes, neq, op, KM, kw):
    K, M, AK, AM = KM
    for sparse in (None, True, False):
        args = dict(kw)
        if sparse is not None:
            args["sparse"] = sparse
        k, m = ctx.call(what, ass.assembler, elements, mats, nodes, neq, op, **args)
        lab = what + {None: " (default)", True: " (sparse)", False: " (dense)"}[sparse]
        if sparse is False:
            ctx.ok(isinstance(k, np.ndarray) and isinstance(m, np.ndarray), lab + ": not a dense array")
        else:
            ctx.ok(sps.issparse(k) and sps.issparse(m), lab + ": not a sparse matrix")
            ctx.ok(k.format == "csr", lab + ": stiffness is not stored by rows")
        entries(ctx, k, K, AK, lab + " stiffness")
        entries(ctx, m, M, AM, lab + " mass")
    for fn, name in ((ass.dense_assem, "dense_assem"), (ass.sparse_assem, "sparse_assem")):
        if ctx.rng.random() < 0.3:
            k, m = ctx.call(name, fn, elements, mats, nodes, neq, op, **kw)
            entries(ctx, k, K, AK, name + " stiffness")
            entries(ctx, m, M, AM, name + " mass")
    ctx.event("matrix entries judged", 6*K.size)


def continuum(ctx):
    rng = ctx.rng
    name = ["tri3", "quad4", "tri6", "quad9"][ctx.index % 4]
    xy, conn = gen.mesh2d(rng, name)
    mats = gen.materials(rng)
    if rng.random() < 0.5:              # stiff and soft, heavy and light parts side by side
        mats = mats*10**rng.uniform(-7, 7, (len(mats), 1))**np.array([1, 0, 1])[:mats.shape[1]]
    mid = rng.integers(0, len(mats), len(conn))
    c = constraints(rng, len(xy), 2)
    if rng.random() < 0.5:
        c = gen.clamp(rng, xy)
    extra = gen.pick(rng, "none", "cons", "cons", "many")
    cols = {"none": None, "cons": c, "many": np.column_stack([c, rng.normal(size=(len(xy), 3))])}[extra]
    nodes, elements = gen.tables(rng, xy, conn, ref.TYPE_ID[name], mid, cols)
    op, bc, neq = ctx.call("DME", ass.DME, c, elements)
    neq = int(neq)
    KM = expected(op, np.asarray(elements), mats, np.asarray(nodes, float)[:, 1:3], neq, bc, 2,
                    lambda el: FUN[int(el[1])])
    what = "assembly of %d %s elements" % (len(conn), name)
    compare(ctx, what, elements, gen.dress(rng, mats, ints=False), nodes, neq, op, KM, {})
    # element order is irrelevant
    p = rng.permutation(len(conn))
    k, m = ctx.call(what, ass.assembler, np.asarray(elements)[p], mats, nodes, neq, np.asarray(op)[p])
    entries(ctx, k, KM[0], KM[2], what + " with elements reordered")
    entries(ctx, m, KM[1], KM[3], what + " with elements reordered: mass")
    ctx.key(name, xy, conn, c, mats, mid)
    ctx.note(family=name, elements=len(conn), nodes=len(xy), neq=neq, materials=len(mats), node_columns=np.asarray(nodes).shape[1])


def structural(ctx):
    rng = ctx.rng
    types = [[5], [6], [5, 6], [7], [8], [7, 8]][ctx.index % 6]
    nd = 2 if types[0] < 7 else 3
    n = int(rng.integers(2, 25))
    xy = rng.uniform(-1, 1, (n, 2))*gen.scale(rng, 1e-3, 1e3)
    ne = int(rng.integers(1, 40))
    conn = np.array([rng.permutation(n)[:2] for _ in range(ne)])
    et = rng.choice(types, ne)
    # one profile layout serves both types of a mixed model
    mats = np.exp(rng.uniform(-3, 3, (int(rng.integers(1, 5)), int(rng.integers(3, 5)) if nd == 3 else
                              int(rng.integers(2, 4)))))
    if 5 in types and len(types) == 1 and rng.random() < 0.5:
        mats = mats[:, :1]
    c = constraints(rng, n, nd)
    mid = rng.integers(0, len(mats), ne)
    nodes, elements = gen.tables(rng, xy, conn, et, mid, c if rng.random() < 0.5 else None)
    op, bc, neq = ctx.call("DME", ass.DME, c, elements, ndof_node=nd)
    neq = int(neq)
    KM = expected(op, np.asarray(elements), mats, xy, neq, bc, nd, lambda el: FUN[int(el[1])])
    what = "assembly of %d members of types %s" % (ne, types)
    compare(ctx, what, elements, gen.dress(rng, mats, ints=False), nodes, neq, op, KM, {})
    ctx.key(types, xy, conn, c, mats)
    ctx.note(types=types, members=ne, neq=neq)


def user_element(ctx):
    """arbitrary (even non-symmetric) element matrices, 1-3 dof, any node count; the
    element sees exactly its coordinates and its material"""
    rng = ctx.rng
    nd, nn, dim = int(rng.integers(1, 4)), int(rng.integers(1, 9)), int(rng.integers(1, 4))
    n = nn + int(rng.integers(0, 15))
    ne = int(rng.integers(1, 20))
    conn = np.array([rng.permutation(n)[:nn] for _ in range(ne)])
    xyz = rng.normal(size=(n, dim))
    mats = rng.normal(size=(int(rng.integers(1, 6)), int(rng.integers(1, 6))))
    mid = rng.integers(0, len(mats), ne)
    tid = int(gen.pick(rng, 1, 3, 10, 42))
    nodes, elements = gen.tables(rng, xyz, conn, tid, mid)
    c = constraints(rng, n, nd)
    base_k, base_m = rng.normal(size=(2, nn*nd, nn*nd))
    loss = gen.pick(rng, 0, 0, 0, 0.3j)       # materials with loss, some or all of them; both matrices or one
    lossy, dense_m = rng.random(len(mats)) < gen.pick(rng, 0.5, 1.0), bool(rng.integers(2))
    table = {tuple(p): bool(x) for p, x in zip(mats, lossy)}
    calls = []

    def element(coord, params):
        calls.append((np.array(coord, float), np.array(params, float)))
        s = 1 + np.sum(np.asarray(coord)*np.arange(1, dim + 1)) + 3*np.sum(params)
        if loss and table[tuple(params)]:
            return base_k*s*(1 + loss), base_m*(s - 0.5)*(1 - loss if dense_m else 1)
        return base_k*s, base_m*(s - 0.5)
    op, bc, neq = ctx.call("DME", ass.DME, gen.dress(rng, c), elements, ndof_node=nd, ndof_el_max=nd*nn,
                           ndof_el=lambda t: nd*nn)
    neq = int(neq)
    KM = expected(op, np.asarray(elements), mats, xyz, neq, bc, nd, lambda el: element, complex if loss else float)
    del calls[:]
    ctx.call("assembler", ass.assembler, elements, mats, nodes, neq, op, uel=element, sparse=bool(rng.integers(2)))
    want = {(tuple(np.round(xyz[cn].ravel(), 12)), tuple(mats[m])) for cn, m in zip(conn, mid)}
    got = {(tuple(np.round(a.ravel(), 12)), tuple(b)) for a, b in calls}
    ctx.ok(got == want, "user elements were not called with exactly their own coordinates and materials",
           got=len(got), want=len(want))
    for a, _ in calls:
        ctx.ok(a.shape == (nn, dim), "user element received coordinates of shape %s" % (a.shape,))
    compare(ctx, "assembly of %d user elements" % ne, elements, mats, nodes, neq, op, KM, {"uel": element})
    if rng.random() < 0.3:
        e = int(rng.integers(ne))
        k, m = ctx.call("retriever", ass.retriever, elements, mats, nodes, e, uel=element)
        kr, mr = element(xyz[conn[e]], mats[mid[e]])
        ctx.close(k, kr, "retriever with a user element", 1e-12)
        ctx.close(m, mr, "retriever with a user element: mass", 1e-12)
    ctx.key("user", xyz, conn, mats, c)
    ctx.note(nodes_per_element=nn, ndof=nd, dim=dim, elements=ne, neq=neq, loss=str(loss))
    if loss:
        ctx.event("models with complex element matrices")


def large(ctx):
    """thousands of equations, compared through products with random vectors"""
    rng = ctx.rng
    name = ["quad4", "tri3"][ctx.index % 2]
    nx = int(rng.integers(24, 40))
    xy, conn = gen.mesh2d(rng, name, (nx, nx), kind="jitter", holes=False)
    mats = gen.materials(rng, n=int(rng.integers(2, 40)))
    mid = rng.integers(0, len(mats), len(conn))
    c = gen.clamp(rng, xy)
    nodes, elements = gen.tables(rng, xy, conn, ref.TYPE_ID[name], mid, c)
    op, bc, neq = ctx.call("DME", ass.DME, c, elements)
    k, m = ctx.call("assembler", ass.assembler, elements, mats, nodes, neq, op)
    v = rng.normal(size=int(neq))
    full = np.zeros((len(xy), 2))
    fk, fm = np.zeros((len(xy), 2)), np.zeros((len(xy), 2))
    free = np.asarray(bc)[:, :2] >= 0
    full[free] = v[np.asarray(bc)[:, :2][free]]
    for el, a in zip(conn, mid):
        kk, mm = FUN[ref.TYPE_ID[name]](xy[el], mats[a])
        np.add.at(fk, el, (kk @ full[el].ravel()).reshape(-1, 2))
        np.add.at(fm, el, (mm @ full[el].ravel()).reshape(-1, 2))
    for f, g, w in ((fk, k, "stiffness"), (fm, m, "mass")):
        want = np.zeros(int(neq))
        want[np.asarray(bc)[:, :2][free]] = f[free]
        ctx.close(g @ v, want, "product with the %s of a model with %d equations" % (w, neq), 1e-10)
    ctx.key("large", xy, mats)
    ctx.note(family=name, elements=len(conn), neq=neq, materials=len(mats))


def many(ctx):
    """members, nodes, equations and profiles beyond the ranges of 8- and 16-bit numbers"""
    rng = ctx.rng
    t = [6, 8, 5, 7][ctx.index % 4]
    nd = 2 if t < 7 else 3
    n = [36000, 23000, 67000, 12000][ctx.index % 4] + int(rng.integers(0, 50))
    if ctx.tier == "quick":
        n = [36000, 23000, 3000, 5000][ctx.index % 4] + int(rng.integers(0, 50))
    xy = np.column_stack([np.arange(n)*1.0, rng.uniform(-3, 3, n)])[rng.permutation(n)]
    conn = np.column_stack([np.arange(n), np.roll(rng.permutation(n), 1)])
    conn = conn[conn[:, 0] != conn[:, 1]]
    if ctx.tier == "quick":
        conn = np.vstack([conn[rng.permutation(len(conn))[:6000]], [[n - 2, n - 1]]])
    nm = int(gen.pick(rng, 300, 1000, 33000))
    mats = np.exp(rng.uniform(-2, 2, (nm, 4 if nd == 3 else 3)))
    mid = rng.integers(0, nm, len(conn))
    mid[-1] = nm - 1
    c = np.where(rng.random((n, nd)) < 0.02, -1, 0)
    nodes, elements = gen.tables(rng, xy, conn, t, mid, c if nd == 2 else None)
    op, bc, neq = ctx.call("DME", ass.DME, c, elements, ndof_node=nd)
    k, m = ctx.call("assembler", ass.assembler, elements, mats, nodes, neq, op)
    what = "model of %d members of type %d, %d equations" % (len(conn), t, neq)
    ctx.ok(k.shape == (neq, neq) and m.shape == (neq, neq), what + ": shape %s" % (k.shape,))
    free = c == 0
    num = np.asarray(bc)[:, :nd]
    v = rng.normal(size=int(neq))
    full, fk, fm = np.zeros((3, n, nd))
    full[free] = v[num[free]]
    for el, a in zip(conn, mid):
        kk, mm = FUN[t](xy[el], mats[a])
        fk[el] += (kk @ full[el].ravel()).reshape(2, nd)
        fm[el] += (mm @ full[el].ravel()).reshape(2, nd)
    for f, g, w in ((fk, k, "stiffness"), (fm, m, "mass")):
        want = np.zeros(int(neq))
        want[num[free]] = f[free]
        # (members differ in length by decades: row by row)
        scale = np.asarray(abs(g) @ np.abs(v)) + np.abs(want)
        bad = np.abs(g @ v - want) > 1e-10*scale + 1e-13*np.abs(want).max()
        ctx.ok(not bad.any(), "product with the %s of a %s" % (w, what), rows=np.flatnonzero(bad)[:4])
    ctx.event("equations in large models", int(neq))
    ctx.key("many", xy, conn[:100])
    ctx.note(type=t, members=len(conn), neq=int(neq), materials=nm)


def crowd(ctx):
    """more members, and more profiles, than 8- and 16-bit numbers count, between few nodes: every entry is judged"""
    rng = ctx.rng
    t = [5, 3, 6, 8][ctx.index % 4]
    nd, nn = (3 if t == 8 else 2), (3 if t == 3 else 2)
    n = int(rng.integers(20, 60))
    ne = int(gen.pick(rng, 34000, 36000, 41000)) + int(rng.integers(0, 3000))
    if ctx.tier == "thorough" and rng.random() < 0.3:
        ne = 66000 + int(rng.integers(0, 5000))
    xy = rng.uniform(-1, 1, (n, 2))
    conn = np.argsort(rng.random((ne, n)), axis=1)[:, :nn]
    if t == 3:                                   # counter-clockwise, not thin
        for _ in range(60):
            e = xy[conn[:, 1:]] - xy[conn[:, :1]]
            ar = e[:, 0, 0]*e[:, 1, 1] - e[:, 0, 1]*e[:, 1, 0]
            conn[ar < 0, 1:] = conn[ar < 0, :0:-1]
            thin = np.abs(ar) < 0.05
            if not thin.any():
                break
            conn[thin] = np.argsort(rng.random((thin.sum(), n)), axis=1)[:, :nn]
        conn = conn[~thin]
        ne = len(conn)
    nm = int(gen.pick(rng, ne, ne, 33500))
    mats = np.exp(rng.uniform(-2, 2, (nm, 4 if nd == 3 else 3)))
    if t == 3:
        mats[:, 1] = rng.uniform(0, 0.45, nm)
    mid = rng.permutation(np.arange(ne) % nm)
    c = np.where(rng.random((n, nd)) < 0.1, -1, 0)
    nodes, elements = gen.tables(rng, xy, conn, t, mid, c if nd == 2 else None)
    op, bc, neq = ctx.call("DME", ass.DME, c, elements, ndof_node=nd)
    neq = int(neq)
    KM = expected(op, np.asarray(elements), mats, xy, neq, bc, nd, lambda el: FUN[t])
    what = "model of %d members of type %d with %d profiles" % (ne, t, nm)
    for sparse in (True, False):
        k, m = ctx.call("assembler", ass.assembler, elements, mats, nodes, neq, op, sparse=sparse)
        lab = what + (" (sparse)" if sparse else " (dense)")
        # one missing member of average stiffness is far above round-off of a sum of this many
        entries(ctx, k, KM[0], KM[2], lab + " stiffness", 1e-11)
        entries(ctx, m, KM[1], KM[3], lab + " mass", 1e-11)
    ctx.high("members in one model", ne)
    ctx.high("profiles in one model", nm)
    ctx.event("matrix entries judged", 4*neq**2)
    ctx.key("crowd", xy, conn[:100], mats[:100])
    ctx.note(type=t, members=ne, neq=neq, materials=nm)


def tied(ctx):
    """elements with a node that occurs twice (collapsed quadrilaterals, rings of one freedom): all its entries add up"""
    rng = ctx.rng
    kind = gen.pick(rng, "quad4", "user", "user", "merged")
    if kind == "quad4":
        xy, conn = gen.mesh2d(rng, "tri3")
        twice = rng.integers(0, 3, len(conn))
        conn = np.array([np.insert(c, t, c[t]) for c, t in zip(conn, twice)])
        # a quadrilateral folded to a triangle has a positive Jacobian at its integration points
        mats = gen.materials(rng)
        mid = rng.integers(0, len(mats), len(conn))
        c = constraints(rng, len(xy), 2)
        nodes, elements = gen.tables(rng, xy, conn, 1, mid, c)
        op, bc, neq = ctx.call("DME", ass.DME, c, elements)
        KM = expected(op, np.asarray(elements), mats, xy, int(neq), bc, 2, lambda el: FUN[1])
        compare(ctx, "assembly of %d collapsed quadrilaterals" % len(conn), elements, mats, nodes, int(neq), op, KM, {})
        ctx.key("tied", xy, conn, c)
        ctx.note(kind=kind, elements=len(conn), neq=int(neq))
        return
    nd, nn = int(rng.integers(1, 4)), int(rng.integers(2, 7))
    n, ne = int(rng.integers(1, 12)), int(rng.integers(1, 20))
    conn = rng.integers(0, n, (ne, nn))
    xyz = rng.normal(size=(n, 2))
    mats = rng.normal(size=(3, 2))
    mid = rng.integers(0, 3, ne)
    nodes, elements = gen.tables(rng, xyz, conn, 10, mid)
    c = constraints(rng, n, nd)
    base_k, base_m = rng.normal(size=(2, nn*nd, nn*nd))

    def element(coord, params):
        s = 1 + np.sum(np.asarray(coord)) + 3*np.sum(params)
        return base_k*s, base_m*(s - 0.5)
    op, bc, neq = ctx.call("DME", ass.DME, c, elements, ndof_node=nd, ndof_el_max=nd*nn, ndof_el=lambda t: nd*nn)
    op, bc, neq = np.array(op), np.array(bc), int(neq)
    if kind == "merged" and neq > 1:             # freedoms tied together through the numbering
        new = rng.integers(0, (neq + 1)//2, neq)
        op[op >= 0] = new[op[op >= 0]]
        free = bc[:, :nd] >= 0
        bc[:, :nd][free] = new[bc[:, :nd][free]]
        neq = (neq + 1)//2
    KM = expected(op, np.asarray(elements), mats, xyz, neq, bc, nd, lambda el: element)
    compare(ctx, "assembly of %d user elements with nodes that occur twice" % ne, elements, mats, nodes, neq, op, KM,
            {"uel": element})
    ctx.key("tied", xyz, conn, c, mats)
    ctx.note(kind=kind, elements=ne, neq=neq, ndof=nd)


FAMILIES = [Family(tied, 120, 2000), Family(crowd, 3, 16), Family(many, 4, 24), Family(continuum, 160, 3000), Family(structural, 160, 3000), Family(user_element, 200, 4000),
            Family(large, 3, 24)]
