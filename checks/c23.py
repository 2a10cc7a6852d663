"""C23 violations of equilibrium are announced, valid solutions are not."""
import contextlib
import io
import os
import tempfile
import warnings
import numpy as np
import solidspy.assemutil as ass
import solidspy.solutil as solutil
from solidspy.solids_GUI import solids_GUI, solids_auto
from vlib.core import CaseTimeout, Family, Violation
from vlib import gen, model
from checks.c22 import write

RULE = ("a case is one run of a workflow on a stable model, a mechanism, or with a fault injected in the linear "
        "solver; the residual of the RETURNED displacements is recomputed and decides whether the warning (or an "
        "exception) was due; distinct = (model, fault)")
ASSUMPTIONS = ["due when residual/load > 1e-3 or not finite, undue when < 1e-7; in between either is accepted",
               "stiffness of the code itself (its correctness is C12), loads accumulated independently"]


def run(m, rng, route):
    """returns (displacements or None, announced)"""
    out = io.StringIO()
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(out):
            warnings.simplefilter("ignore")
            if route == "files":
                with tempfile.TemporaryDirectory() as folder:
                    write(rng, folder, m)
                    U = solids_GUI(plot_contours=False, compute_strains=False, folder=folder)
            else:
                U = solids_auto(m.data(rng), plot_contours=False, compute_strains=False)
    except (CaseTimeout, MemoryError):
        raise
    except Exception as exc:
        return None, "raised %s: %s" % (type(exc).__name__, str(exc)[:100])
    return np.asarray(U, float), ("warned" if "not in equilibrium" in out.getvalue().lower() else "")


def judge(ctx, m, U, said, what, valid=False):
    if U is None:
        ctx.ok(not valid, "%s: %s" % (what, said))
        ctx.event("runs that raised")
        return "raised"
    free = np.asarray(m.cons).ravel() == 0
    ctx.ok(U.shape == m.cons.shape, what + ": displacements of shape %s" % (U.shape,))
    if not np.isfinite(U).all():
        ctx.ok(said, what + ": displacements are not finite and no warning was printed")
        ctx.event("non-finite results announced")
        return "nonfinite"
    kw = {} if m.nd == 2 else {"ndof_node": m.nd}
    nodes, elements = m.tables()
    op, bc, neq = ass.DME(m.cons, elements, **kw)
    K, _ = ass.assembler(elements, m.mats, nodes, neq, op)
    bc = np.asarray(bc).ravel()
    u, f = np.zeros(neq), np.zeros(neq)
    u[bc[free]], f[bc[free]] = U.ravel()[free], m.rhs()[free]
    r = np.abs(K.dot(u) - f).max(initial=0)
    fm = np.abs(f).max(initial=0)
    rel = r/fm if fm > 0 else (0.0 if r == 0 else np.inf)
    if not np.isfinite(rel) or rel > 1e-3:
        ctx.ok(said, "%s: loads are not balanced and nothing was announced" % what, relative_residual=rel,
               load=fm, stiffness=np.abs(K.data).max() if K.nnz else 0)
        ctx.event("unbalanced results announced")
        return "unbalanced"
    if rel < 1e-7:
        ctx.ok(not said, "%s: loads are balanced but the warning was printed" % what, relative_residual=rel,
               load=fm, stiffness=np.abs(K.data).max() if K.nnz else 0)
        ctx.event("balanced results not announced")
        ctx.high("largest undue residual", rel)
        return "balanced"
    ctx.event("residual in between")
    return "between"


def rescale(rng, m):
    """other units of stiffness and load; displacements of any size"""
    mats = np.array(m.mats, float)
    mats[:, 0] *= gen.log_uniform(rng, 1e-9, 1e9)
    lo = np.array(m.loads, float)
    lo[:, 1:] *= gen.log_uniform(rng, 1e-9, 1e9)
    big = np.abs(lo[:, 1:]).max(initial=0)
    if big > 0 and rng.random() < 0.3:         # any unit, whatever the model's own loads were
        lo[:, 1:] *= gen.log_uniform(rng, 1e-15, 1e15)/big
    return m.reorder(mats=mats, loads=lo)


def route_of(rng, m):
    return "files" if m.nd == 2 and rng.random() < 0.5 else "dict"


def stable(ctx):
    rng = ctx.rng
    m, kind = model.any_model(rng)
    m = rescale(rng, m)
    k = ctx.index % 10
    if k == 0:
        m.loads[:, 1:] = 0
    elif k == 1:
        m.cons = np.full_like(m.cons, -1)
    elif k == 2:                              # loads on held directions only
        held = np.argwhere(m.cons == -1)
        rows = []
        for i, j in held[:5]:
            v = np.zeros(m.nd)
            v[j] = rng.normal()
            rows.append([i, *v])
        m.loads = np.array(rows, float)
    route = route_of(rng, m)
    U, said = run(m, rng, route)
    got = judge(ctx, m, U, said, "stable %s (%s)" % (kind, route), valid=True)
    ctx.key(m.xy, m.loads, m.mats)
    ctx.note(kind=kind, route=route, outcome=got, E=m.mats[0, 0], load=np.abs(m.loads[:, 1:]).max(initial=0))


def mechanism(ctx):
    rng = ctx.rng
    k = ctx.index % 7
    if k == 0:                                # nothing held
        m, kind = model.any_model(rng)
        m.cons = np.zeros_like(m.cons)
        what = "unsupported " + kind
    elif k == 1:                              # one direction missing
        m = model.continuum(rng)
        m.cons = np.zeros_like(m.cons)
        m.cons[:, int(rng.integers(2))] = np.where(rng.random(m.n) < 0.5, -1, 0)
        what = "continuum held in one direction"
    elif k == 2:                              # free to turn about one node
        m = model.continuum(rng)
        m.cons = np.zeros_like(m.cons)
        m.cons[int(rng.integers(m.n))] = -1
        what = "continuum held at one node"
    elif k == 3:                              # a panel without its diagonal
        n = int(rng.integers(1, 5))
        xy = np.array([(i, j) for i in range(n + 1) for j in range(2)], float)
        conn = [[2*i, 2*i + 1] for i in range(n + 1)] + [[2*i + j, 2*i + 2 + j] for i in range(n) for j in range(2)]
        for i in range(n):
            if i != n//2:
                conn.append([2*i, 2*i + 3])
        cons = np.zeros((len(xy), 2), int)
        cons[:2] = -1
        xy = (xy + rng.uniform(-.1, .1, xy.shape)*(rng.random() < 0.5)) @ gen.rot(rng, 2).T*gen.scale(rng, 1e-2, 1e2)
        m = model.Model(xy, np.array(conn), 6, np.array([[gen.young(rng), gen.log_uniform(rng, 1e-4, 1)]]),
                        np.zeros(len(conn), int), cons, gen.loads(rng, len(xy), 2))
        what = "truss panel without diagonal"
    elif k == 4:                              # two bodies, one of them loose
        a = model.continuum(rng, "quad4", (2, 2))
        xy = np.vstack([a.xy, a.xy + 3*np.ptp(a.xy, axis=0)])
        m = a.reorder(xy=xy, conn=np.vstack([a.conn, a.conn + a.n]), types=np.tile(a.types, 2),
                      mid=np.tile(a.mid, 2), cons=np.vstack([a.cons, 0*a.cons]), loads=gen.loads(rng, 2*a.n, 2))
        what = "two bodies, one not supported"
    elif k == 5:                              # a loaded node nothing is attached to
        m, kind = model.any_model(rng, ("continuum", "truss"))
        lo = np.vstack([m.loads, [m.n] + [1.0]*m.nd])
        m = m.reorder(xy=np.vstack([m.xy, m.xy.max(axis=0) + 1]),
                      cons=np.vstack([m.cons, np.zeros((1, m.nd), int)]), loads=lo)
        what = "loose node on a " + kind
    else:                                     # a straight chain of springs or bars, loaded across
        n = int(rng.integers(3, 8))
        t = np.array([np.cos(0.3), np.sin(0.3)]) if rng.random() < 0.5 else np.array([1.0, 0.0])
        xy = np.outer(np.arange(n), t)
        cons = np.zeros((n, 2), int)
        cons[0] = cons[-1] = -1
        conn = np.array([[i, i + 1] for i in range(n - 1)])
        m = model.Model(xy, conn, gen.pick(rng, 5, 6), np.array([[gen.young(rng), 1.0]]), np.zeros(n - 1, int), cons,
                        gen.loads(rng, n, 2))
        what = "straight chain loaded across"
    m = rescale(rng, m)
    route = route_of(rng, m)
    U, said = run(m, rng, route)
    got = judge(ctx, m, U, said, "%s (%s)" % (what, route))
    ctx.event("mechanisms")
    ctx.key(m.xy, m.loads, m.mats)
    ctx.note(what=what, route=route, outcome=got, said=said)


def corrupt(rng, f):
    """a faulty result of the linear solver"""
    k = gen.pick(rng, "scaled", "nan", "zero", "shifted", "entry", "sign", "inf", "tiny", "noise", "stale")

    def change(x):
        x = np.array(x, float, copy=True)
        if x.size == 0:
            return x
        i = f[0] % x.size
        if k == "scaled":
            return x*(1 + gen.pick(rng, 0.01, 0.1, -0.5, 1e6))
        if k == "nan":
            x[i] = np.nan
        elif k == "inf":
            x[i] = np.inf
        elif k == "zero":
            x[:] = 0
        elif k == "shifted":
            x = np.roll(x, 1)
        elif k == "entry":
            x[i] += gen.pick(rng, 1, 0.05, -3)*np.abs(x).max()
        elif k == "sign":
            x = -x
        elif k == "tiny":                     # harmless
            x *= 1 + 1e-12
        elif k == "noise":
            x += rng.normal(size=x.size)*np.abs(x).max()*gen.pick(rng, 1e-3, 0.1)
        else:
            x[:] = 1.0
        return x
    return k, change


def large(ctx):
    """hundreds to thousands of equations: sound, not supported, or with a fault in the solver"""
    rng = ctx.rng
    name = ["quad4", "tri3", "quad9", "tri6"][ctx.index % 4]
    k = int(rng.integers(16, 40 if ctx.tier == "quick" else 60))
    k = k if name in ("quad4", "tri3") else k//2
    m = model.continuum(rng, name, size=(k, k), nmat=int(gen.pick(rng, 1, 5)))
    m = rescale(rng, m)
    do = ["fault", "fault", "sound", "mechanism"][ctx.index//4 % 4] if ctx.index >= 4 else "fault"
    if do == "fault":
        return fault(ctx, m, "%s mesh of %d elements" % (name, len(m.conn)))
    if do == "mechanism":
        how = gen.pick(rng, "loose", "one", "node")
        m.cons = np.zeros_like(m.cons)
        if how == "one":
            m.cons[:, int(rng.integers(2))] = -1
            m.cons[0] = 0
            m.xy = np.vstack([m.xy, m.xy.max(axis=0) + 1])       # and a loose node
            m.cons = np.vstack([m.cons, [[0, 0]]])
            m.loads = np.vstack([m.loads, [m.n - 1, 1, 1]])
        elif how == "node":
            m.cons[int(rng.integers(m.n))] = -1
    route = route_of(rng, m)
    U, said = run(m, rng, route)
    what = "%s %s mesh of %d elements (%s)" % (do, name, len(m.conn), route)
    got = judge(ctx, m, U, said, what, valid=do == "sound")
    ctx.key(m.xy, m.loads, do)
    ctx.note(kind=what, outcome=got, said=said)


def faulty(ctx):
    rng = ctx.rng
    m, kind = model.any_model(rng)
    m = rescale(rng, m)
    fault(ctx, m, kind)


def fault(ctx, m, kind):
    rng = ctx.rng
    name, change = corrupt(rng, [int(rng.integers(10**9))])
    route = route_of(rng, m)
    where = gen.pick(rng, "static_sol", "static_sol", "spsolve")
    orig = getattr(solutil, where, None)
    hits = [0]

    def wrong(*a, **k):
        hits[0] += 1
        return change(orig(*a, **k))
    if orig is not None:
        setattr(solutil, where, wrong)
    try:
        U, said = run(m, rng, route)
    finally:
        if orig is not None:
            setattr(solutil, where, orig)
    ctx.event("faults delivered", hits[0])
    ctx.event("fault " + name)
    got = judge(ctx, m, U, said, "%s with solver fault '%s' in %s (%s)" % (kind, name, where, route))
    ctx.key(m.xy, m.loads, name)
    ctx.note(kind=kind, fault=name, where=where, route=route, outcome=got, said=said)


def forest(ctx):
    """tens of thousands of equations: loaded joints, each held by two members"""
    rng = ctx.rng
    n = int(gen.pick(rng, rng.integers(8000, 12000), rng.integers(17000, 19000)))
    ground = rng.uniform(-1, 1, (6, 2)) + np.array([[i, 3.0*(i % 2)] for i in range(6)])
    top = rng.uniform(-1, 1, (n, 2)) + [2, 10]
    p = rng.permutation(n + 6)
    xy = np.empty((n + 6, 2))
    xy[p] = np.vstack([ground, top])
    a = rng.integers(0, 6, n)
    b = (a + rng.integers(1, 6, n)) % 6
    conn = np.vstack([np.column_stack([p[6:], p[a]]), np.column_stack([p[6:], p[b]])])[rng.permutation(2*n)]
    cons = np.zeros((n + 6, 2), int)
    cons[p[:6]] = -1
    mats = np.exp(rng.uniform(-1, 1, (int(gen.pick(rng, 1, 50, 34000)), 2)))*[gen.young(rng), 1.0]
    k = n if rng.random() < 0.6 else 3
    lo = np.column_stack([rng.permutation(p[6:])[:k], rng.normal(size=(k, 2))])
    t = int(gen.pick(rng, 5, 6))
    m = rescale(rng, model.Model(xy, conn, t, mats, rng.integers(0, len(mats), 2*n), cons, lo))
    what = "%d joints on two members of type %d each" % (n, t)
    ctx.high("equations in one model", 2*n)
    if ctx.index % 3 == 0:                    # one joint not supported: its members are taken away
        far = conn[(conn != p[6 + int(rng.integers(n))]).all(axis=1)]
        m = m.reorder(conn=far, types=m.types[:len(far)], mid=m.mid[:len(far)])
        what += ", one of them loose"
    elif ctx.index % 3 == 1:
        return fault(ctx, m, what)
    route = route_of(rng, m)
    U, said = run(m, rng, route)
    got = judge(ctx, m, U, said, "%s (%s)" % (what, route), valid=ctx.index % 3 == 2)
    ctx.key(m.xy, m.loads)
    ctx.note(kind=what, outcome=got, said=said)


FAMILIES = [Family(forest, 4, 40), Family(stable, 240, 5000), Family(mechanism, 280, 5000), Family(faulty, 280, 5000), Family(large, 24, 300)]
