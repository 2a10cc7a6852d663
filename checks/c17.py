"""C17 equilibrium, reactions, superposition, reciprocity, energy, determinism."""
import numpy as np
import solidspy.assemutil as ass
import solidspy.postprocesor as pos
import solidspy.solutil as sol
from scipy.sparse import csr_matrix
from vlib.core import Family
from vlib import gen, model

RULE = ("a case is a stable model (continuum, truss, springs, frame, beam line, 3D/axisymmetric user "
        "elements; several materials, repeated loads, loads on supports) solved by the real pipeline; "
        "residual and reactions are recomputed with an independent stiffness and with the code's own "
        "unconstrained one; distinct = (mesh, loads)")
ASSUMPTIONS = ["round-off allowed: 1e-10 x |K||u| on residuals, 1e-13 x condition number on displacements"]
KINDS = ("continuum", "continuum", "truss", "frame", "line", "user")


def solve(ctx, m, rng, route):
    if route == "auto":
        return np.asarray(model.auto(ctx, m, rng), float), None
    out = model.modular(ctx, m, rng, dense=route == "dense")
    return out["U"], out


def route_of(rng, m):
    return gen.pick(rng, "sparse", "dense") if m.user else gen.pick(rng, "sparse", "dense", "auto")


def equilibrium(ctx):
    rng = ctx.rng
    if ctx.index % 40 == 7:
        m, kind = model.continuum(rng, size=(14, 12) if ctx.index % 80 == 7 else (1, 1)), "continuum"
    else:
        m, kind = model.any_model(rng, KINDS)
    if ctx.index % 53 == 11:                     # everything held
        m.cons = np.full_like(m.cons, -1)
    route = route_of(rng, m)
    U, out = solve(ctx, m, rng, route)
    ctx.ok(U.shape == (m.n, m.nd), "displacements of %s: shape %s" % (kind, U.shape))
    u = U.ravel()
    ctx.ok(np.isfinite(u).all(), "displacements of a stable %s are not finite" % kind)
    K, _ = m.full()
    f = m.rhs()
    w = np.tile(model.dof_scale(m), m.n)         # rotations in units of length
    free = m.free()
    held = np.setdiff1d(np.arange(len(u)), free)
    ctx.ok(not np.any(u[held]), "%s: held directions moved" % kind)
    # code's own unconstrained stiffness
    d = m.data()
    kw = {} if m.nd == 2 else {"ndof_node": m.nd}
    op, bc, neq = ctx.call("DME", ass.DME, np.zeros_like(m.cons), d["elements"], **kw, **model.dme_args(m))
    K2, _ = ctx.call("assembler", ass.assembler, d["elements"], m.mats, d["nodes"], neq, op, **model.uel_args(m))
    cond = model.scaled_cond(K[np.ix_(free, free)])
    for what, A in (("independent stiffness", K), ("own unconstrained stiffness", K2.toarray())):
        r = A @ u
        sc = np.abs(A) @ np.abs(u)
        sc = max((sc/w).max(), (np.abs(f)/w).max(), 1e-300)
        ctx.ok(np.abs((r - f)[free]/w[free]).max(initial=0) <= 1e-10*sc,
               "%s: internal forces (%s) do not balance the loads on free directions" % (kind, what),
               residual=np.abs((r - f)[free]).max(initial=0), load=np.abs(f).max())
        react = np.zeros_like(f)
        react[held] = (r - f)[held]
        bal = model.rigid(m).T @ (react + f)
        amp = 1.0 if m.user else 1.0
        ctx.ok(np.abs(bal).max() <= 1e-9*sc*amp*np.sqrt(len(f))*max(1.0, w.max()),
               "%s: reactions (%s) do not balance the applied forces and moments" % (kind, what), imbalance=bal)
    # residual relative to the loads when the model is well conditioned
    r = K @ u - f
    fs = (np.abs(f)/w).max()
    if cond < 1e6:
        ctx.close(r[free]/w[free], np.zeros(len(free)), "%s: residual" % kind, 1e-13*cond + 1e-9, fs)
        ctx.event("well-conditioned systems")
    ctx.high("largest condition number", cond)
    ctx.event("models of kind " + (m.user or kind))
    ctx.key(m.xy, f)
    ctx.note(kind=kind, user=m.user, route=route, nodes=m.n, elements=len(m.conn), equations=len(free), cond=cond)


def linear(ctx):
    rng = ctx.rng
    m, kind = model.any_model(rng, KINDS)
    route = route_of(rng, m)
    K, _ = m.full()
    free = m.free()
    cond = model.scaled_cond(K[np.ix_(free, free)])
    tol = 1e-12*cond + 1e-10
    w = np.tile(model.dof_scale(m), m.n).reshape(m.n, m.nd)
    mag = gen.log_uniform(rng, 1e-3, 1e6)
    f1, f2 = gen.loads(rng, m.n, m.nd, mag=mag), gen.loads(rng, m.n, m.nd, mag=mag)
    a = float(gen.pick(rng, -1.0, 0.0, 1e-6, 1e6, rng.normal()))
    af1 = f1.copy()
    af1[:, 1:] *= a
    both = np.vstack([af1, f2])[rng.permutation(len(f1) + len(f2))]
    U = {}
    for name, ld in (("1", f1), ("2", f2), ("a1", af1), ("sum", both), ("again", f1)):
        m.loads = ld
        U[name], out = solve(ctx, m, rng if name != "again" else None, route)
        if name == "again":
            first = out
    s = max(np.abs(U["1"]*w).max(), 1e-300)
    s2 = max(np.abs(U["2"]*w).max(), 1e-300)
    ctx.close(U["again"]*w, U["1"]*w, "%s solved twice" % kind, 1e-14*cond + 1e-13, s)
    ctx.close(U["a1"]*w, a*U["1"]*w, "%s: loads scaled by %g" % (kind, a), tol, abs(a)*s or s)
    ctx.close(U["sum"]*w, (a*U["1"] + U["2"])*w, "%s: superposition" % kind, tol, abs(a)*s + s2)
    F1, F2 = gen.rhs_of(f1, m.n, m.nd), gen.rhs_of(f2, m.n, m.nd)
    w12, w21 = np.sum(F1*U["2"]), np.sum(F2*U["1"])
    ctx.close(np.array(w12), np.array(w21), "%s: reciprocity" % kind, tol,
              np.sqrt(abs(np.sum(F1*U["1"])*np.sum(F2*U["2"]))) + abs(w12) + np.abs(F1*U["2"]).max() or 1.0)
    work = np.sum(F1*U["1"])
    ctx.ok(work >= -tol*np.sum(np.abs(F1*U["1"])), "%s: loads do negative work %g" % (kind, work))
    # potential energy, reduced system
    m.loads = f1
    out = first if first is not None else model.modular(ctx, m, rng)
    x, A = np.asarray(out["u"]), out["K"]
    for B in (A, A.toarray() if hasattr(A, "toarray") else csr_matrix(A)):
        e = float(ctx.call("energy", pos.energy, x, B))
        ctx.close(np.array(e), np.array(-0.5*np.sum(F1*U["1"])), "%s: potential energy" % kind, tol,
                  0.5*np.sum(np.abs(F1*U["1"])) or 1.0)
        ctx.ok(e <= tol*np.sum(np.abs(F1*U["1"])), "%s: positive potential energy %g" % (kind, e))
    v = rng.normal(size=len(x))*(np.abs(x).max(initial=0) or 1.0)
    Ad = A.toarray() if hasattr(A, "toarray") else A
    e = float(ctx.call("energy", pos.energy, gen.dress(rng, v), A))
    ctx.close(np.array(e), np.array(-0.5*v @ Ad @ v), "energy of an arbitrary vector", 1e-12,
              np.abs(v) @ np.abs(Ad) @ np.abs(v) or 1.0)
    ctx.ok(e <= 1e-12*(np.abs(v) @ np.abs(Ad) @ np.abs(v)), "energy of an arbitrary vector is positive")
    ctx.high("largest condition number", cond)
    ctx.key(m.xy, f1, f2)
    ctx.note(kind=kind, user=m.user, route=route, nodes=m.n, factor=a, cond=cond)


def solver(ctx):
    """static_sol on matrices of any size, storage and right-hand side form"""
    rng = ctx.rng
    n = int(gen.pick(rng, 1, 2, 3, rng.integers(2, 30), rng.integers(2, 120)))
    k = gen.pick(rng, "spd", "diag", "tridiag", "nonsym", "complex", "permuted")
    if k == "diag":
        A = np.diag(rng.uniform(0.5, 2, n))
    elif k == "tridiag":
        A = 2.5*np.eye(n) - np.eye(n, k=1) - np.eye(n, k=-1)
    elif k == "permuted":                        # zero diagonal
        A = np.eye(n)[rng.permutation(n)]*rng.uniform(0.5, 2, n)
    else:
        B = rng.normal(size=(n, n))
        A = B @ B.T + n*np.eye(n) if k != "nonsym" else B + 3*np.sqrt(n)*np.eye(n)
    if k == "complex":
        C = rng.normal(size=(n, n))
        A = A + 1j*(C - C.T)
    A = A*gen.log_uniform(rng, 1e-12, 1e12)
    b = rng.normal(size=n)*gen.log_uniform(rng, 1e-12, 1e12)
    if rng.random() < 0.1:
        b[:] = 0
    mat = csr_matrix(A) if rng.random() < 0.5 else gen.dress(rng, A, ints=False)
    keep = A.copy()
    x = ctx.call("static_sol", sol.static_sol, mat, gen.dress(rng, b))
    x = np.asarray(x)
    ctx.ok(x.shape == (n,), "static_sol: shape %s" % (x.shape,))
    ctx.close(A @ x, b, "static_sol(%s %s, n=%d) does not solve the system" % (k, type(mat).__name__, n),
              1e-10, max(np.abs(b).max(), 0.0) or 1.0)
    want = np.linalg.solve(A, b)
    ctx.close(x, want, "static_sol vs dense solve", 1e-10*max(1, np.linalg.cond(A)/1e3), np.abs(want).max() or 1.0)
    ctx.close(mat, keep, "matrix after static_sol", 0, 1)
    ctx.key(A, b)
    ctx.note(kind=k, n=n, storage=type(mat).__name__)


def large(ctx):
    """thousands of equations"""
    rng = ctx.rng
    name = ["quad4", "tri3", "quad9", "tri6", "truss"][ctx.index % 5]
    if name == "truss":
        m = model.truss(rng, "truss", n=int(rng.integers(500, 900)))
    else:
        k = int(rng.integers(28, 36)) if name in ("quad4", "tri3") else int(rng.integers(14, 19))
        m = model.continuum(rng, name, size=(k, k), nmat=int(gen.pick(rng, 1, 3, 40)))
    route = gen.pick(rng, "sparse", "sparse", "dense", "auto")
    U, _ = solve(ctx, m, rng, route)
    what = "%s model with %d equations" % (name, len(m.free()))
    u = U.ravel()
    held = np.asarray(m.cons).ravel() != 0
    ctx.ok(U.shape == (m.n, 2) and np.isfinite(u).all() and not np.any(u[held]), what + ": displacements")
    r, sc = -gen.rhs_of(m.loads, m.n, 2), np.zeros((m.n, 2))
    work = 0.0
    for e, el in enumerate(m.conn):
        k = m.element_matrices(e)[0]
        v = U[el].ravel()
        g = k @ v
        np.add.at(r, el, g.reshape(-1, 2))
        np.add.at(sc, el, (np.abs(k) @ np.abs(v)).reshape(-1, 2))
        work += v @ g
    free = ~held
    top = max(sc.max(), np.abs(m.loads[:, 1:]).max())
    ctx.ok(np.abs(r.ravel()[free]).max() <= 1e-11*top, what + ": internal forces do not balance the loads",
           residual=np.abs(r.ravel()[free]).max(), scale=top)
    bal = model.rigid(m).T @ (np.where(held, r.ravel(), 0) + m.rhs())
    ctx.ok(np.abs(bal).max() <= 1e-10*top*np.sqrt(m.n), what + ": reactions do not balance the loads", imbalance=bal)
    # element energies add up to the work of the loads (both computed outside)
    lw = float(m.rhs() @ u)
    ctx.close(np.array(work), np.array(lw), what + ": energy and work of the loads", 1e-6, abs(lw) or 1.0)
    ctx.event("equations in large models", len(m.free()))
    ctx.key(m.xy, m.loads)
    ctx.note(kind=name, equations=len(m.free()), elements=len(m.conn), route=route)


def company(ctx):
    """structures that do not touch, decades apart in stiffness, load and size: each is in equilibrium by itself"""
    rng = ctx.rng
    kind = ["continuum", "truss", "frame", "user"][ctx.index % 4]
    k = int(rng.integers(2, 5))
    if kind == "continuum":
        name = gen.pick(rng, "tri3", "quad4", "tri6", "quad9")
        ms = [model.continuum(rng, name, (int(rng.integers(1, 5)), int(rng.integers(1, 4)))) for _ in range(k)]
    elif kind == "truss":
        ms = [model.truss(rng, gen.pick(rng, "truss", "spring"), int(rng.integers(3, 9))) for _ in range(k)]
    elif kind == "frame":
        ms = [model.frame(rng, int(rng.integers(2, 6))) for _ in range(k)]
    else:
        name = gen.pick(rng, "quad8", "axi", "tet4", "hex8")
        ms = [model.user(rng, name) for _ in range(2)]
    if kind == "truss":                              # (a spring constant is the first entry of its profile)
        t = int(ms[0].types[0])
        ms = [m for m in ms if m.types[0] == t]
    m, parts, rows = model.company(rng, ms)
    route = route_of(rng, m)
    U, out = solve(ctx, m, rng, route)
    free_all = 0
    for i, (part, r) in enumerate(zip(parts, rows)):
        K, _ = part.full()
        f, u, free = part.rhs(), U[r].ravel(), part.free()
        w = np.tile(model.dof_scale(part), part.n)
        what = "%s %d of %d" % (kind, i + 1, len(parts))
        ctx.ok(np.isfinite(u).all() and not np.delete(u, free).any(), what + ": displacements not finite or held directions moved")
        res = np.abs((K @ u - f)[free]/w[free]).max(initial=0)
        sc = max(((np.abs(K) @ np.abs(u))/w).max(), (np.abs(f)/w).max(), 1e-300)
        ctx.ok(res <= 1e-10*sc, what + ": its internal forces do not balance its loads", residual=res, load=np.abs(f).max())
        cond = model.scaled_cond(K[np.ix_(free, free)])
        want = part.solution()[0].ravel()
        ctx.close(u*w, want*w, what + ": displacements beside structures decades apart", 1e-12*cond + 1e-10,
                  np.abs(want*w).max() or 1.0)
        free_all += len(free)
    sizes = [np.abs(U[r]).max() for r in rows]
    ctx.high("decades between the displacements of two parts",
             np.log10(max(sizes)/min([s for s in sizes if s > 0], default=1.0)) if max(sizes) > 0 else 0.0)
    ctx.event("parts judged", len(parts))
    ctx.key(m.xy, m.loads)
    ctx.note(kind=kind, route=route, parts=len(parts), nodes=m.n, equations=free_all)


FAMILIES = [Family(company, 120, 2400), Family(large, 5, 100), Family(equilibrium, 300, 6000), Family(linear, 200, 4000), Family(solver, 200, 4000)]
