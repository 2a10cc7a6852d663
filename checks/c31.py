"""C31 energy monotonicity and convergence to exact elasticity."""
import numpy as np
import solidspy.postprocesor as pos
from vlib.core import Family
from vlib import gen, model, ref
from checks.c30 import refine

RULE = ("a case is one problem solved on two or more meshes (nested subdivisions, enriched elements, changed "
        "supports, stiffer or removed parts) or a sequence of meshes against an exact solution; energies come "
        "from the real solution and pos.energy; distinct = (problem, meshes)")
ASSUMPTIONS = ["nesting is exact on triangles, parallelograms and parallelepipeds, where the quadrature is exact",
               "observed convergence per halving must reach 2^(2p-1.5) in energy, 2^(p-0.7) in displacement, 1.3 in stress"
               " (theory: 2^2p, 2^(p+1), 2^p), with absolute error bounds on the finer mesh"]


def solve(ctx, m, rng=None, what=""):
    """compliance, potential energy and displacements by the real pipeline"""
    out = model.modular(ctx, m, rng, dense=rng is not None and rng.random() < 0.3)
    u, f = np.asarray(out["u"], float), np.asarray(out["f"], float)
    e = float(ctx.call("energy", pos.energy, out["u"], out["K"]))
    c = float(f @ u)
    sc = max(abs(c), 1e-300)
    tol = 1e-8
    if 1 < len(u) < 700:                         # rounding of ill-conditioned (thin) meshes
        tol = max(tol, 1e-13*model.scaled_cond(np.asarray(out["K"].toarray() if hasattr(out["K"], "toarray")
                                                          else out["K"])))
    ctx.loose = max(getattr(ctx, "loose", 0.0), tol)
    ctx.close(e, -0.5*c, what + ": potential energy is not minus half the work of the loads", tol, sc)
    return c, e, out["U"]


def stretch(rng, xy):
    """sometimes long thin elements (along an axis or any direction)"""
    if rng.random() < 0.5:
        return xy
    d = np.diag([1.0, 1/gen.log_uniform(rng, 4, 60)])
    R = gen.rot2(rng.uniform(0, np.pi)) if rng.random() < 0.4 else np.eye(2)[::gen.pick(rng, 1, -1)]
    return xy @ (R.T @ d @ R)


def nested(ctx):
    """corner loads and supports shared by all meshes"""
    rng = ctx.rng
    name = ["tri3", "quad4", "tri6", "quad9"][ctx.index % 4]
    base = "tri3" if name.startswith("tri") else "quad4"
    kind = None if base == "tri3" else "grid"
    xy, conn = gen.mesh2d(rng, base, (int(rng.integers(1, 4)), int(rng.integers(1, 3))), kind=kind)
    xy = stretch(rng, xy)
    nm = int(rng.integers(1, 3))
    mats = gen.materials(rng, nm)
    mid = rng.integers(0, nm, len(conn))
    corner = len(xy)
    cc = gen.clamp(rng, xy)
    lo = gen.loads(rng, corner, 2)
    seq = []
    levels = 3 if name == base else 2
    for lev in range(levels):
        for el in ([base, "tri6" if base == "tri3" else "quad9"] if lev == 0 and name == base else [name]):
            X, C = (xy, conn) if el == base else gen.elevate(None, xy, conn, el)
            cons = np.zeros((len(X), 2), int)
            cons[:corner] = cc
            p = rng.permutation(len(X))
            inv = np.argsort(p)
            l2 = np.array(lo, float)
            l2[:, 0] = p[l2[:, 0].astype(int)]
            m = model.Model(X[inv], gen.rotate_local(rng, el, p[C]), ref.TYPE_ID[el], mats, mid, cons[inv], l2)
            what = "%s, level %d" % (el, lev)
            c, e, U = solve(ctx, m, rng, what)
            seq.append((lev, el, c, U[p[:corner]], len(X)))
        xy, conn = refine(base, xy, conn)
        mid = np.repeat(mid, 4)
    for i, a in enumerate(seq):
        for b in seq[i + 1:]:
            if b[0] >= a[0] and (b[1] == a[1] or a[1] == base):
                ctx.ok(b[2] >= a[2] - 10*ctx.loose*abs(b[2]), "%s of level %d is stiffer than %s of level %d it contains"
                       % (b[1], b[0], a[1], a[0]), coarse=a[2], fine=b[2])
                ctx.event("nested pairs compared")
    ctx.key(xy, lo)
    ctx.note(family=name, compliance=[s[2] for s in seq], nodes=[s[4] for s in seq])


def spaces(ctx):
    """8-node inside 9-node quadrilaterals, nested bricks, quadrilaterals inside split triangles' refinement"""
    rng = ctx.rng
    which = ctx.index % 3
    if which == 0:                               # quad4 < quad8 < quad9 on parallelograms
        xy, conn = gen.mesh2d(rng, "quad4", None, kind="grid")
        xy = stretch(rng, xy)
        mats = gen.materials(rng, cols=3)
        mid = rng.integers(0, len(mats), len(conn))
        cc, lo = gen.clamp(rng, xy), gen.loads(rng, len(xy), 2)
        cs = []
        for el in ("quad4", "quad8", "quad9"):
            X, C = (xy, conn) if el == "quad4" else gen.elevate(None, xy, conn, el)
            cons = np.zeros((len(X), 2), int)
            cons[:len(cc)] = cc
            m = model.Model(X, C, ref.TYPE_ID.get(el, 10), mats, mid, cons, lo, user="quad8" if el == "quad8" else None)
            cs.append(solve(ctx, m, None, el)[0])
        names = ["4-node", "8-node", "9-node"]
    elif which == 1:                             # bricks
        n = [int(v) for v in rng.integers(1, 3, 3)]
        A = gen.affine(rng, 3, 2.0)*gen.scale(rng, 1e-2, 1e2)
        cs, names = [], ["bricks", "bricks halved"]
        mats = gen.materials(rng, 1, 3)
        for k in (1, 2):
            X, C = gen.mesh3d(rng, "hex8", tuple(k*v for v in n), jitter=0.0, scl=1.0, shuffle=False)
            g = np.array([(i, j, l) for i in range(k*n[0] + 1) for j in range(k*n[1] + 1) for l in range(k*n[2] + 1)])/k
            if k == 1:
                base = g
                hold = rng.permutation(len(g))[:3 + int(rng.integers(3))]
                if np.linalg.matrix_rank(g[hold] - g[hold[0]]) < 2:
                    hold = np.arange(len(g))[(g[:, 0] == 0)]
                lo0 = gen.loads(rng, len(g), 3)
            look = {tuple(np.round(p*2).astype(int)): i for i, p in enumerate(g)}
            num = np.array([look[tuple(np.round(p*2).astype(int))] for p in base])
            cons = np.zeros(g.shape, int)
            cons[num[hold]] = -1
            lo = np.array(lo0, float)
            lo[:, 0] = num[lo[:, 0].astype(int)]
            m = model.Model(g @ A.T, C, 10, mats, np.zeros(len(C), int), cons, lo, nd=3, user="hex8")
            cs.append(solve(ctx, m, None, "bricks")[0])
    else:                                        # tetrahedra inside bricks' 27 split? triangles inside tri6 pairs
        xy, conn = gen.mesh2d(rng, "quad4", None, kind="grid")
        xy = stretch(rng, xy)
        mats = gen.materials(rng)
        mid = rng.integers(0, len(mats), len(conn))
        cc, lo = gen.clamp(rng, xy), gen.loads(rng, len(xy), 2)
        X, C = gen.elevate(None, xy, conn, "quad9")
        cons = np.zeros((len(X), 2), int)
        cons[:len(cc)] = cc
        cs, names = [], ["4-node", "6-node triangles on the same quadrilaterals"]
        cs.append(solve(ctx, model.Model(xy, conn, 1, mats, mid, cc, lo), rng, "4-node")[0])
        T, tm = [], []
        for k, q in enumerate(C):                # bilinear on a parallelogram is quadratic on its halves
            if rng.random() < 0.5:
                T += [[q[0], q[1], q[2], q[4], q[5], q[8]], [q[0], q[2], q[3], q[8], q[6], q[7]]]
            else:
                T += [[q[0], q[1], q[3], q[4], q[8], q[7]], [q[1], q[2], q[3], q[5], q[6], q[8]]]
            tm += [mid[k]]*2
        cs.append(solve(ctx, model.Model(X, np.array(T), 2, mats, np.array(tm), cons, lo), rng, "6-node")[0])
    for a, b, na, nb in zip(cs, cs[1:], names, names[1:]):
        ctx.ok(b >= a - 10*ctx.loose*abs(b), "%s are stiffer than the %s they contain" % (nb, na), coarse=a, fine=b)
        ctx.event("contained spaces compared")
    ctx.key(which, mats, lo, cs)
    ctx.note(spaces=names, compliance=cs)


def change(ctx):
    """supports, moduli and parts"""
    rng = ctx.rng
    m, kind = model.any_model(rng, ("continuum", "continuum", "truss", "frame", "line", "user"))
    what = m.user or kind
    c0, _, U0 = solve(ctx, m, rng, what)
    if not len(m.free()):
        return
    tol = 1e-7*abs(c0)
    # one support more
    cand = np.flatnonzero(m.cons.ravel() == 0)
    extra = m.cons.copy()
    extra.ravel()[rng.permutation(cand)[:int(rng.integers(1, 4))]] = -1
    if np.any(extra == 0):
        c1, _, _ = solve(ctx, m.reorder(cons=extra), rng, what)
        ctx.ok(c1 <= c0 + tol, "%s: adding supports makes it more flexible" % what, before=c0, after=c1)
        ctx.event("supports added")
    # stiffer
    mats = np.array(m.mats, float)
    r = int(rng.integers(len(mats)))
    k = rng.uniform(1, 5)
    mats[r, 0] *= k
    c2, _, _ = solve(ctx, m.reorder(mats=mats), rng, what)
    ctx.ok(c2 <= c0 + tol, "%s: a stiffer material makes it more flexible" % what, before=c0, after=c2)
    ctx.ok(c2 >= c0/k - tol, "%s: %g times stiffer material changes the energy more than that" % (what, k),
           before=c0, after=c2)
    # a part more: duplicate an element
    e = int(rng.integers(len(m.conn)))
    more = m.reorder(conn=np.vstack([m.conn, m.conn[e:e + 1]]), types=np.append(m.types, m.types[e]),
                     mid=np.append(m.mid, m.mid[e]))
    c3, _, _ = solve(ctx, more, rng, what)
    ctx.ok(c3 <= c0 + tol, "%s: an added element makes it more flexible" % what, before=c0, after=c3)
    ctx.ok(c3 >= 0.5*c0 - tol, "%s: one doubled element more than halves the energy" % what, before=c0, after=c3)
    ctx.event("stiffenings compared", 2)
    # the solution minimizes the potential among tried displacements
    K, _ = m.full()
    f, fr = m.rhs(), m.free()
    for _ in range(3):
        v = np.zeros(f.size)
        v[fr] = U0.ravel()[fr]*(1 + rng.normal(size=len(fr))*gen.pick(rng, 1e-2, 0.3))
        pi = 0.5*v @ K @ v - f[fr] @ v[fr]
        ctx.ok(pi >= -0.5*c0 - tol, "%s: an admissible field has less potential than the solution" % what)
    ctx.key(m.xy, m.conn, m.loads)
    ctx.note(kind=what, compliance=c0, supported=c1 if np.any(extra == 0) else None, stiffer=c2, doubled=c3)


# -- convergence to exact solutions --------------------------------------------
def weak_load(name, xy, conn, stress, energy_density=None):
    """nodal loads equivalent to a stress field; also the strain energy of the exact field"""
    f = np.zeros_like(xy)
    W = 0.0
    pts, wts = ref.rule(name, 5)
    for el in conn:
        c = xy[el]
        g = np.zeros(2*len(el))
        for p, w in zip(pts, wts):
            N, dNx, det = ref.geom(name, c, p)
            s, d = stress(N @ c)
            g += w*det*(ref.bmat(dNx).T @ s)
            W += w*det*d
        np.add.at(f, el, g.reshape(-1, 2))
    return f, W


def trig(rng, E, nu):
    """smooth displacement field with its exact stress"""
    C = ref.cstress(E, nu)
    k = rng.uniform(-1, 1, (2, 2))
    k /= np.linalg.norm(k, axis=1)[:, None]
    k *= rng.uniform(1.5, 2.2)
    ph = rng.uniform(0, 2*np.pi, 2)
    amp = rng.normal(size=(2, 2))

    def disp(x):
        s = np.sin(x @ k.T + ph)
        return s @ amp

    def stress(x):
        G = amp.T @ (np.cos(k @ x + ph)[:, None]*k)      # du_i/dx_j
        e = np.array([G[0, 0], G[1, 1], G[0, 1] + G[1, 0]])
        s = C @ e
        return s, s @ e
    return disp, stress


def mapped(name, n, warp, rngw, curved):
    """n x n mesh of a smoothly warped square"""
    tri = name.startswith("tri")
    x, q = gen.grid(n, n, 0.0, np.random.default_rng(0))
    if tri:
        q = np.array([t for k, (a, b, c, d) in enumerate(q) for t in
                      (([a, b, c], [a, c, d]) if (k + k//n) % 2 else ([a, b, d], [b, c, d]))])
    if name in ("tri6", "quad9"):
        x, q = gen.elevate(None, x, q, name)
    X = x.copy()
    X[:, 0] += warp*np.sin(2*x[:, 1] + rngw[0])
    X[:, 1] += warp*np.sin(2*x[:, 0] + rngw[1])
    return X, q


def smooth(ctx):
    rng = ctx.rng
    name = ["tri3", "quad4", "tri6", "quad9"][ctx.index % 4]
    p = ref.DEGREE[name]
    E, nu = gen.young(rng), gen.poisson(rng)
    disp, stress = trig(rng, E, nu)
    L = gen.scale(rng, 1e-2, 1e2)
    A = gen.affine(rng, 2, 1.5)
    A /= np.sqrt(np.linalg.det(A))
    warp, rw = gen.pick(rng, 0.0, 0.08), rng.uniform(0, 3, 2)
    ns = (4, 8) if p == 1 else (3, 6)
    err, derr, serr = [], [], []
    for n in ns:
        X, q = mapped(name, n, warp, rw, True)
        X = X @ A.T
        f, W = weak_load(name, X, q, lambda x: stress(x))
        cons = np.zeros(X.shape, int)
        a, b = 0, n
        cons[a] = -1
        d = int(np.argmin(np.abs(X[b] - X[a])))
        cons[b, d] = -1
        mats = np.array([[E, nu, 1.0]])
        m = model.Model(X*L, q, ref.TYPE_ID[name], mats, np.zeros(len(q), int), cons,
                        np.column_stack([np.arange(len(X)), f*L]))
        c, e, U = solve(ctx, m, rng, name)
        U = U/L
        err.append(1 - c/L**2/W)
        u = disp(X)
        R = ref.rigid_modes(X)
        z = (U - u).ravel()
        z = z - R @ np.linalg.lstsq(R, z, rcond=None)[0]
        v = u.ravel() - R @ np.linalg.lstsq(R, u.ravel(), rcond=None)[0]
        derr.append(np.sqrt(np.mean(z**2)/np.mean(v**2)))
        nodes, els = m.tables()
        _, S = ctx.call("strain_nodes", pos.strain_nodes, nodes, els, mats, U*L)
        want = np.array([stress(x)[0] for x in X])
        serr.append(np.sqrt(np.mean((S - want)**2)/np.mean(want**2)))
    ctx.ok(min(err) > -1e-3*max(abs(x) for x in err) - 1e-9, "%s: more energy than the exact solution" % name, errors=err)
    ctx.ok(err[0] > 0 and err[0]/max(err[1], 1e-300) > 2**(2*p - 1.5), "%s: energy does not converge at order %d"
           % (name, 2*p), errors=err)
    ctx.ok(err[1] < {"tri3": 0.15, "quad4": 0.06, "tri6": 0.004, "quad9": 0.002}[name],
           "%s: energy far from exact" % name, errors=err)
    ctx.ok(derr[0]/derr[1] > 2**(p - 0.7), "%s: displacements do not converge at order %d" % (name, p + 1), errors=derr)
    ctx.ok(serr[0]/serr[1] > 1.3 and serr[1] < 0.25/p, "%s: recovered stresses do not converge" % name, errors=serr)
    ctx.high("energy order lost, " + name, 2*p - np.log2(err[0]/err[1]))
    ctx.high("displacement order lost, " + name, p + 1 - np.log2(derr[0]/derr[1]))
    ctx.high("stress order lost, " + name, p - np.log2(serr[0]/serr[1]))
    ctx.high("energy error " + name, err[1])
    ctx.high("stress error " + name, serr[1])
    ctx.event("convergence sequences")
    ctx.key(name, E, nu, err)
    ctx.note(family=name, E=E, nu=nu, meshes=ns, energy_errors=err, displacement_errors=derr, stress_errors=serr)


def edge_load(xy, edges, traction, weight=None):
    """consistent loads of a traction over boundary edges (2 or 3 nodes: ends, middle)"""
    f = np.zeros_like(xy)
    x, w = np.polynomial.legendre.leggauss(6)
    for e in edges:
        for s, ws in zip(x, w):
            if len(e) == 2:
                N, d = np.array([(1 - s)/2, (1 + s)/2]), np.array([-0.5, 0.5])
            else:
                N, d = np.array([s*(s - 1)/2, s*(s + 1)/2, 1 - s*s]), np.array([s - 0.5, s + 0.5, -2*s])
            p = N @ xy[e]
            ds = np.hypot(*(d @ xy[e]))*ws*(1 if weight is None else weight(p))
            f[e] += ds*np.outer(N, traction(p))
    return f


def block(name, nx, ny, place):
    """structured mesh of [0,1]^2 mapped by place; side nodes are mapped too. Returns the edges of the
    sides s=0 and s=1"""
    quad2 = name in ("tri6", "quad9")
    k = 2 if quad2 else 1
    g = [(i/(k*nx), j/(k*ny)) for j in range(k*ny + 1) for i in range(k*nx + 1)]

    def at(i, j):
        return j*(k*nx + 1) + i
    conn = []
    for j in range(ny):
        for i in range(nx):
            a = np.array([[at(k*i + r, k*j + s) for r in range(k + 1)] for s in range(k + 1)])
            if not quad2:
                q = [a[0, 0], a[0, 1], a[1, 1], a[1, 0]]
                if name == "quad4":
                    conn.append(q)
                else:
                    conn += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]] if (i + j) % 2 else \
                        [[q[0], q[1], q[3]], [q[1], q[2], q[3]]]
            else:
                q = [a[0, 0], a[0, 2], a[2, 2], a[2, 0], a[0, 1], a[1, 2], a[2, 1], a[1, 0], a[1, 1]]
                if name == "quad9":
                    conn.append(q)
                elif (i + j) % 2:
                    conn += [[q[0], q[1], q[2], q[4], q[5], q[8]], [q[0], q[2], q[3], q[8], q[6], q[7]]]
                else:
                    conn += [[q[0], q[1], q[3], q[4], q[8], q[7]], [q[1], q[2], q[3], q[5], q[6], q[8]]]
    xy = np.array([place(*p) for p in g])
    sides = []
    for i in (0, k*nx):
        sides.append([[at(i, k*j), at(i, k*j + k)] + ([at(i, k*j + 1)] if quad2 else []) for j in range(ny)])
    return xy, np.array(conn), np.array(g), sides


def classic(ctx):
    """thick-walled ring and tube, Timoshenko's cantilever, hanging bar"""
    rng = ctx.rng
    which = ctx.index % 4
    E, nu = gen.young(rng), gen.poisson(rng)
    L = gen.scale(rng, 1e-2, 1e2)
    name = gen.pick(rng, "tri3", "quad4", "tri6", "quad9")
    p = ref.DEGREE[name]
    rel, stress = [], []
    if which in (0, 1):
        a, b = 1.0*L, rng.uniform(1.5, 2.5)*L
        pr = rng.normal(size=2)                  # inner and outer pressure
        A = (pr[0]*a*a - pr[1]*b*b)/(b*b - a*a)
        B = (pr[0] - pr[1])*a*a*b*b/(b*b - a*a)
        if which == 1:
            name, p = "quad9", 2
        for n in ((4, 8) if p == 1 else (2, 4)):
            if which == 0:
                xy, conn, g, (inner, outer) = block(name, n, n, lambda r, t: (
                    (a + (b - a)*r)*np.cos(t*np.pi/2), (a + (b - a)*r)*np.sin(t*np.pi/2)))
                cons = np.zeros(xy.shape, int)
                cons[g[:, 1] == 0, 1] = -1
                cons[g[:, 1] == 1, 0] = -1
                r = np.hypot(*xy.T)
                f = edge_load(xy, inner, lambda x: pr[0]*x/np.hypot(*x)) - \
                    edge_load(xy, outer, lambda x: pr[1]*x/np.hypot(*x))
                ur = ((1 - nu)*A*r + (1 + nu)*B/r)/E
                want = xy/r[:, None]*ur[:, None]
            else:
                nu = min(nu, 0.45)
                h = 0.3*L
                xy, conn, g, (inner, outer) = block(name, n, 1, lambda r, z: (a + (b - a)*r, h*z))
                cons = np.zeros(xy.shape, int)
                cons[:, 1] = -1
                r = xy[:, 0]
                f = edge_load(xy, inner, lambda x: np.array([pr[0], 0]), lambda x: 2*np.pi*x[0]) - \
                    edge_load(xy, outer, lambda x: np.array([pr[1], 0]), lambda x: 2*np.pi*x[0])
                ur = (1 + nu)/E*((1 - 2*nu)*A*r + B/r)
                want = np.column_stack([ur, 0*ur])
            mats = np.array([[E, nu, 1.0]])
            m = model.Model(xy, conn, ref.TYPE_ID[name], mats, np.zeros(len(conn), int), cons,
                            np.column_stack([np.arange(len(xy)), f]), user="axi" if which == 1 else None)
            _, _, U = solve(ctx, m, rng, "thick-walled " + name)
            rel.append(np.abs(U - want).max()/np.abs(want).max())
            if which == 0:
                nodes, els = m.tables()
                _, S = ctx.call("strain_nodes", pos.strain_nodes, nodes, els, mats, U)
                c, s = xy.T/r
                sr, st = A - B/r**2, A + B/r**2
                W = np.column_stack([sr*c*c + st*s*s, sr*s*s + st*c*c, (sr - st)*s*c])
                stress.append(np.sqrt(np.mean((S - W)**2)/np.mean(W**2)))
        what = "thick-walled " + ("ring, " + name if which == 0 else "tube")
    elif which == 2:
        ln, c, k = rng.uniform(2, 5)*L, 0.5*L, rng.normal()
        for n in ((4, 8) if p == 1 else (2, 4)):
            coarse = n if not rel else n//2
            nx = int(np.ceil(coarse*ln/(2*c)/1.5))*(n//coarse)
            xy, conn, g, (left, right) = block(name, nx, n, lambda x, y: (ln*x, c*(2*y - 1)))
            x, y = xy.T
            cons = np.zeros(xy.shape, int)
            root = np.flatnonzero((g[:, 0] == 0) & (g[:, 1] == 0.5))[0]
            top = np.flatnonzero((g[:, 0] == 0) & (g[:, 1] == 1))[0]
            cons[root] = -1
            cons[top, 0] = -1

            def tr(pt):
                return np.array([k*(ln - pt[0])*pt[1], k/2*(pt[1]**2 - c**2)])
            f = edge_load(xy, right, tr) - edge_load(xy, left, tr)
            C1 = -(1 + nu/2)*c*c/3
            want = k/E*np.column_stack([
                (ln*x - x*x/2)*y + (1 + nu/2)*y**3/3 + C1*y,
                -nu*(ln - x)*y*y/2 - (ln*x*x/2 - x**3/6) - ((1 + nu)*c*c + C1)*x])
            mats = np.array([[E, nu, 1.0]])
            m = model.Model(xy, conn, ref.TYPE_ID[name], mats, np.zeros(len(conn), int), cons,
                            np.column_stack([np.arange(len(xy)), f]))
            _, _, U = solve(ctx, m, rng, "cantilever " + name)
            rel.append(np.abs(U - want).max()/np.abs(want).max())
            nodes, els = m.tables()
            _, S = ctx.call("strain_nodes", pos.strain_nodes, nodes, els, mats, U)
            W = np.column_stack([k*(ln - x)*y, 0*x, k/2*(y*y - c*c)])
            stress.append(np.sqrt(np.mean((S - W)**2)/np.mean(W**2)))
        what = "cantilever, " + name
    else:                                        # nodal values of a hanging bar are exact
        n = int(rng.integers(2, 20))
        z = np.concatenate([[0], np.cumsum(rng.uniform(0.3, 1.5, n))])*L
        th = rng.uniform(0, 2*np.pi)
        d = np.array([np.cos(th), np.sin(th)])
        ax = int(np.argmax(np.abs(d)))
        d = np.eye(2)[ax]
        A, w = gen.log_uniform(rng, 1e-3, 1), rng.normal()
        fl = np.zeros(n + 1)
        fl[:-1] += w*np.diff(z)/2
        fl[1:] += w*np.diff(z)/2
        cons = np.full((n + 1, 2), -1)
        cons[1:, ax] = 0
        m = model.Model(np.outer(z, d), np.array([[i, i + 1] for i in range(n)]), 6, np.array([[E, A]]),
                        np.zeros(n, int), cons, np.column_stack([np.arange(n + 1), np.outer(fl, d)]))
        _, _, U = solve(ctx, m, rng, "bar")
        ctx.close(U, np.outer(w/(E*A)*(z[-1]*z - z*z/2), d), "hanging bar: displacements", 1e-9)
        what = "hanging bar"
    if rel:
        ctx.ok(rel[1] < {"tri3": 0.45, "quad4": 0.3, "tri6": 0.02, "quad9": 0.02}[name], what + ": far from exact",
               errors=rel)
        small = 1e-3 if p == 2 else 1e-9         # fine already: the ratio says little
        ctx.ok(rel[1] < small or rel[0]/rel[1] > 2**(p - 0.7), what + ": displacements do not converge", errors=rel)
        if stress:
            ctx.ok(stress[0]/stress[1] > 1.3 and stress[1] < 0.6/p, what + ": stresses do not converge", errors=stress)
        ctx.high("closed-form error, " + what, rel[1])
        ctx.high("closed-form order lost, " + what, p + 1 - np.log2(rel[0]/rel[1]))
        if stress:
            ctx.high("closed-form stress error, " + what, stress[1])
    ctx.event("closed forms")
    ctx.key(what, E, nu, L, rel)
    ctx.note(case=what, E=E, nu=nu, errors=rel, stress_errors=stress)


FAMILIES = [Family(nested, 120, 2000), Family(spaces, 60, 1200), Family(change, 120, 2500), Family(smooth, 40, 600),
            Family(classic, 40, 600)]
