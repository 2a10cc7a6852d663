"""C11 equation numbering and element-to-equation table."""
import numpy as np
import solidspy.assemutil as ass
import solidspy.femutil as fem
from vlib.core import Family
from vlib import gen, ref

RULE = ("a case is a constraint table (random, all free, all fixed, one free, blocks; int/float, strided, "
        "read-only; 1-3 dof per node) with a connectivity of built-in or user types; distinct = contents; "
        "oracle = bijection of numbers with free freedoms and gather by connectivity")

CATALOGUE = {1: (8, 4), 2: (12, 6), 3: (6, 3), 4: (18, 9), 5: (4, 2), 6: (4, 2), 7: (6, 2), 8: (6, 2)}


def constraints(rng, n, nd):
    k = rng.integers(7)
    c = np.zeros((n, nd), int)
    if k == 0:
        pass
    elif k == 1:
        c[:] = -1
    elif k == 2:
        c[:] = -1
        c[rng.integers(n), rng.integers(nd)] = 0
    elif k == 3:
        c[rng.integers(n), rng.integers(nd)] = -1
    elif k == 4:
        c[:, rng.integers(nd)] = -1
    else:
        c[rng.random((n, nd)) < rng.random()] = -1
    return c


def judge_numbering(ctx, cons, nd, neq, bc, what):
    bc = np.asarray(bc)
    cons = np.asarray(cons)
    ctx.ok(bc.shape[0] == cons.shape[0] and bc.shape[1] >= nd, what + ": shape %s" % (bc.shape,))
    bc = bc[:, :nd]
    free = cons[:, :nd] == 0
    ctx.ok(bc.dtype.kind in "iu", what + ": equation numbers must be integers", dtype=str(bc.dtype))
    ctx.ok(int(neq) == free.sum(), what + ": %s equations for %d free freedoms" % (neq, free.sum()))
    ctx.ok(np.all(bc[~free] == -1), what + ": a constrained freedom is not marked -1")
    got = np.sort(bc[free])
    ctx.ok(np.array_equal(got, np.arange(free.sum())), what + ": free freedoms are not numbered 0..neq-1 once each")
    ctx.event("freedoms judged", free.size)


def numbering(ctx):
    rng = ctx.rng
    nd = int(rng.integers(1, 4))
    n = int(gen.pick(rng, 1, 2, 3, rng.integers(1, 60), 400, 1500))
    c = constraints(rng, n, nd)
    cons = gen.dress(rng, c.astype(float) if rng.random() < 0.5 else c)
    what = "eqcounter(%d nodes, %d dof)" % (n, nd)
    if nd == 2 and rng.random() < 0.5:
        neq, bc = ctx.call(what, ass.eqcounter, cons)
    else:
        neq, bc = ctx.call(what, ass.eqcounter, cons, ndof_node=nd)
    judge_numbering(ctx, c, nd, neq, bc, what)
    ctx.ok(np.array_equal(np.asarray(cons), c), what + ": the constraint table was changed")
    ctx.key("num", c)
    ctx.note(nodes=n, ndof=nd, free=int((c == 0).sum()))


def large(ctx):
    """tables longer than the ranges of 8- and 16-bit numbers"""
    rng = ctx.rng
    name, t, nn, nd = [("quad4", 1, 4, 2), ("tri3", 3, 3, 2), ("truss", 6, 2, 2), ("beam", 8, 2, 3),
                       ("tri6", 2, 6, 2), ("quad9", 4, 9, 2)][ctx.index % 6]
    n = [36000, 12000, 70000, 25000, 17000, 34000][ctx.index//2 % 6] + int(rng.integers(0, 500))
    ne = [300, 40000, 70000, 1200][ctx.index % 4]
    if ctx.tier == "quick" and ctx.index > 1:
        ne = min(ne, 5000)
    c = constraints(rng, n, nd)
    if ctx.index % 3 == 0 or rng.random() < 0.6:
        c = np.where(rng.random((n, nd)) < 0.02, -1, 0)
    conn = (rng.integers(0, n, ne)[:, None] + np.array([0, 1, 7, 5, 11, 13, 17, 19, 23])[:nn]) % n
    conn[-1] = n - 1 - np.arange(nn)
    ids = np.arange(ne) if rng.random() < 0.6 else rng.permutation(ne) + 5
    elements = np.column_stack([ids, np.full(ne, t), rng.integers(0, 5, ne), conn]).astype(int)
    kw = {} if nd == 2 else {"ndof_node": nd}
    what = "DME(%d %s elements, %d nodes)" % (ne, name, n)
    op, bc, neq = ctx.call(what, ass.DME, gen.dress(rng, c), gen.dress(rng, elements), **kw)
    judge_table(ctx, what, c, nd, conn, op, bc, neq)
    neq, bc = ctx.call("eqcounter", ass.eqcounter, gen.dress(rng, c), **kw)
    judge_numbering(ctx, c, nd, neq, bc, "eqcounter(%d nodes)" % n)
    ctx.key("large", c, conn)
    ctx.note(nodes=n, elements=ne, equations=int(neq))


def operator(ctx):
    rng = ctx.rng
    types = gen.pick(rng, [1], [2], [3], [4], [5], [6], [5, 6], [6, 5], [7], [8], [7, 8])
    nn = CATALOGUE[types[0]][1]
    nd = CATALOGUE[types[0]][0]//nn
    n = int(rng.integers(nn, nn + 40))
    ne = int(gen.pick(rng, 1, 2, rng.integers(1, 60)))
    conn = np.array([rng.permutation(n)[:nn] for _ in range(ne)])
    et = rng.choice(types, ne)
    ids = np.arange(ne) if rng.random() < 0.6 else rng.permutation(ne) + 5
    elements = np.column_stack([ids, et, rng.integers(0, 5, ne), conn]).astype(int)
    c = constraints(rng, n, nd)
    cons = gen.dress(rng, c.astype(float) if rng.random() < 0.5 else c)
    el = gen.dress(rng, elements)
    kw = {}
    if nd != 2 or rng.random() < 0.5:
        kw["ndof_node"] = nd
    width = 18
    if rng.random() < 0.3:
        width = nd*nn + int(rng.integers(0, 5))
        kw["ndof_el_max"] = width
    what = "DME(types %s, %d elements)" % (types, ne)
    op, bc, neq = ctx.call(what, ass.DME, cons, el, **kw)
    judge_table(ctx, what, c, nd, conn, op, bc, neq)
    ctx.ok(np.array_equal(np.asarray(el), elements), what + ": the element table was changed")
    ctx.key("op", c, elements)
    ctx.note(types=types, elements=ne, nodes=n)


def judge_table(ctx, what, c, nd, conn, op, bc, neq):
    judge_numbering(ctx, c, nd, neq, bc, what)
    op, bc = np.asarray(op), np.asarray(bc)
    nn = conn.shape[1]
    ctx.ok(op.shape[0] == len(conn) and op.shape[1] >= nd*nn, what + ": table has shape %s" % (op.shape,))
    ctx.ok(op.dtype.kind in "iu", what + ": table must hold integers")
    want = bc[conn][:, :, :nd].reshape(len(conn), nd*nn)
    bad = np.argwhere(op[:, :nd*nn] != want)
    ctx.ok(len(bad) == 0, what + ": wrong equation for element/position", at=bad[:3])
    ctx.event("element rows judged", len(conn))


def user_types(ctx):
    rng = ctx.rng
    nn, nd = int(rng.integers(2, 28)), int(rng.integers(1, 4))
    n = nn + int(rng.integers(0, 20))
    ne = int(rng.integers(1, 20))
    conn = np.array([rng.permutation(n)[:nn] for _ in range(ne)])
    tid = int(gen.pick(rng, 1, 4, 9, 10, 99, 0))
    elements = np.column_stack([np.arange(ne), np.full(ne, tid), np.zeros(ne), conn]).astype(int)
    c = constraints(rng, n, nd)
    seen = []

    def ndof_el(iet):
        seen.append(int(iet))
        return nn*nd
    what = "DME(user elements with %d nodes, %d dof per node)" % (nn, nd)
    op, bc, neq = ctx.call(what, ass.DME, gen.dress(rng, c), gen.dress(rng, elements), ndof_node=nd,
                           ndof_el_max=nn*nd, ndof_el=ndof_el)
    judge_table(ctx, what, c, nd, conn, op, bc, neq)
    ctx.ok(set(seen) <= {tid}, what + ": asked for the size of type %s" % (set(seen),))
    ctx.key("user", c, elements)
    ctx.note(nodes_per_element=nn, ndof=nd, elements=ne)


def catalogue(ctx):
    import solidspy.uelutil as uel
    fun = {1: uel.elast_quad4, 2: uel.elast_tri6, 3: uel.elast_tri3, 4: uel.elast_quad9,
           5: uel.spring, 6: uel.truss2D, 7: uel.beam2DU, 8: uel.beam2D}
    for t, (ndof, nn) in CATALOGUE.items():
        tt = np.int64(t) if ctx.rng.random() < 0.5 else t
        res = ctx.call("eletype(%d)" % t, fem.eletype, tt)
        ctx.ok(tuple(res[:2]) == (ndof, nn), "eletype(%d) = %s, expected (%d, %d, ..)" % (t, res, ndof, nn))
        points = {1: 4, 2: 7, 3: 3, 4: 9}.get(t)
        ctx.ok(points is None or res[2] == points, "eletype(%d): %s integration points, its rule has %s" % (t, res[2], points))
        f = ctx.call("ele_fun(%d)" % t, ass.ele_fun, tt)
        names = {1: "quad4", 2: "tri6", 3: "tri3", 4: "quad9"}
        if t in names:
            X = np.array(ref.ELEMS[names[t]]["nodes"], float)
            p = [3.0, 0.2, 2.0]
        else:
            X = np.array([[0.0, 0.0], [1.5, 0.7]])
            p = [3.0, 0.2, 2.0, 4.0][:4 if t > 6 else 2]
        K, M = ctx.call("element of type %d" % t, f, X, p)
        Kr, Mr = ctx.call("element of type %d" % t, fun[t], X, p)
        ctx.close(K, Kr, "stiffness of type %d" % t, 1e-13)
        ctx.close(M, Mr, "mass of type %d" % t, 1e-13, max(1, np.abs(Mr).max()))
        ctx.ok(np.asarray(K).shape == (ndof, ndof), "type %d has %s freedoms" % (t, np.asarray(K).shape))
        ctx.key("type", t)
    for t in (0, -1, 9, 10, 55, 1000, 2.5, 0.5, 8.5):
        ctx.raises(ValueError, "eletype(%g)" % t, fem.eletype, t)
        ctx.raises(ValueError, "ele_fun(%g)" % t, ass.ele_fun, t)
        if t != int(t):
            continue
        el = np.array([[0, t, 0, 0, 1]])
        ctx.raises(ValueError, "DME with element type %d" % t, ass.DME, np.zeros((2, 2)), el)
    # an unknown type hidden among known ones
    el = np.array([[0, 3, 0, 0, 1, 2], [1, 3, 0, 1, 2, 3], [2, 9, 0, 0, 1, 3]])
    ctx.raises(ValueError, "DME with one unknown type", ass.DME, np.zeros((4, 2)), el)


FAMILIES = [Family(numbering, 700, 20000), Family(operator, 700, 20000),
            Family(large, 12, 60), Family(user_types, 200, 5000),
            Family(catalogue, 8, 20)]
