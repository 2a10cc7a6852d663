"""C19 trusses, springs, frames against classical structural analysis."""
import numpy as np
import solidspy.postprocesor as pos
from vlib.core import Family
from vlib import gen, model, ref

RULE = ("a case is a stable truss, spring network, mixed network, frame or beam line solved by the real "
        "pipeline; oracle = independent stiffness method from member energies, elongations, joint "
        "equilibrium by sections, cantilever/closed-form beam solutions, subdivision; distinct = (structure, loads)")
ASSUMPTIONS = ["tolerance 1e-13 x condition number + 1e-10"]


def solve(ctx, m, rng):
    route = gen.pick(rng, "sparse", "dense", "auto")
    if rng.random() < 0.1:                    # its nodes among many others
        big, rows = model.spread(rng, m)
        ctx.high("longest node table", big.n)
        U, route = solve(ctx, big, rng)
        others = np.delete(np.arange(big.n), rows)
        ctx.ok(not U[others].any(), "displacements at held nodes")
        return U[rows], route + ", spread"
    if route == "auto":
        return np.asarray(model.auto(ctx, m, rng), float), route
    return model.modular(ctx, m, rng, dense=route == "dense")["U"], route


def compare(ctx, m, U, what):
    u, cond, _ = m.solution()
    w = model.dof_scale(m)
    ctx.close(U*w, u*w, what + ": displacements", 1e-13*cond + 1e-10, np.abs(u*w).max() or 1.0)
    ctx.high("largest condition number", cond)
    return u, cond


def trusses(ctx):
    rng = ctx.rng
    kind = ["truss", "spring", "mixed"][ctx.index % 3] if ctx.index % 2 else "truss"
    m = model.truss(rng, kind, n=40 if ctx.index % 50 == 4 else None)
    U, route = solve(ctx, m, rng)
    what = "%s of %d members" % (kind, len(m.conn))
    _, cond = compare(ctx, m, U, what)
    if kind == "truss":
        d = m.data(rng)
        fe_disp = gen.dress(rng, U)
        s = np.asarray(ctx.call("stress_truss", pos.stress_truss, d["nodes"], d["elements"], d["mats"], fe_disp))
        ctx.ok(s.shape == (len(m.conn),), "stress_truss: shape %s" % (s.shape,))
        want, force = np.zeros(len(s)), np.zeros((m.n, 2))
        um, scale = np.abs(U).max(), 0.0
        for i, (a, b) in enumerate(m.conn):
            v = m.xy[b] - m.xy[a]
            L = np.hypot(*v)
            E = m.mats[m.mid[i], 0]
            want[i] = E*((U[b] - U[a]) @ v)/L**2
            scale = max(scale, E*um/L)
            N = s[i]*m.mats[m.mid[i], 1]*v/L
            force[a] += N
            force[b] -= N
        ctx.close(s, want, what + ": axial stresses", 1e-11, scale or 1.0)
        # each member by itself: what its own end displacements can do by rounding
        v = m.xy[m.conn[:, 1]] - m.xy[m.conn[:, 0]]
        far = np.abs(m.xy).max()*2/np.hypot(*v.T)
        own = m.mats[m.mid, 0]/np.hypot(*v.T)*np.abs(U[m.conn]).max(axis=(1, 2))
        ctx.each(s, want, what + ": axial stress of each member", 1e-13*(1 + far)*own)
        ext = gen.rhs_of(m.loads, m.n, 2)
        fm = max(np.abs(ext).max(), np.abs(want*m.mats[m.mid, 1]).max())
        free = np.asarray(m.cons) == 0
        ctx.close((force + ext)[free], np.zeros(free.sum()), what + ": joint equilibrium",
                  1e-13*cond + 1e-10, fm or 1.0)
        # any displacement field, not only solutions
        X = rng.normal(size=U.shape)*gen.log_uniform(rng, 1e-6, 1e3)
        if rng.random() < 0.3:
            X *= 10**rng.uniform(-14, 0, (m.n, 1))
        s = np.asarray(ctx.call("stress_truss", pos.stress_truss, d["nodes"], d["elements"], d["mats"], X))
        v = m.xy[m.conn[:, 1]] - m.xy[m.conn[:, 0]]
        L = np.hypot(*v.T)
        E = m.mats[m.mid, 0]
        el = np.einsum("ij,ij->i", X[m.conn[:, 1]] - X[m.conn[:, 0]], v)/L
        ctx.close(s, E*el/L, what + ": stresses of arbitrary displacements", 1e-11, (E*np.abs(X).max()/L).max())
        ctx.each(s, E*el/L, what + ": stress of each member, arbitrary displacements",
                 1e-13*(1 + far)*E/L*np.abs(X[m.conn]).max(axis=(1, 2)))
        if rng.random() < 0.2:                # its nodes among many others
            big, rows = model.spread(rng, m)
            d = big.data(rng)
            Y = rng.normal(size=(big.n, 2))
            Y[rows] = X
            s = np.asarray(ctx.call("stress_truss", pos.stress_truss, d["nodes"], d["elements"], d["mats"], Y))
            ctx.close(s, E*el/L, what + ": stresses with %d nodes in the table" % big.n, 1e-11, (E*np.abs(X).max()/L).max())
            ctx.high("longest node table", big.n)
        # rigid motions are free of stress
        R = ref.rigid_modes(m.xy) @ rng.normal(size=3)
        d = m.data(rng)
        s = np.asarray(ctx.call("stress_truss", pos.stress_truss, d["nodes"], d["elements"], d["mats"],
                                R.reshape(-1, 2)))
        ctx.close(s, 0*s, what + ": stresses of a rigid motion", 1e-11, (E*np.abs(R).max()/L).max())
        ctx.event("member stresses", 3*len(s))
    ctx.key(m.xy, m.conn, m.loads)
    ctx.note(kind=kind, nodes=m.n, members=len(m.conn), route=route, cond=cond)


def determinate(ctx):
    """statically determinate structures: forces from equilibrium alone"""
    rng = ctx.rng
    which = ctx.index % 3
    E, A = gen.young(rng), gen.log_uniform(rng, 1e-4, 1)
    if which == 0:                            # tower of triangles built joint by joint
        n = int(rng.integers(3, 12))
        pts = [np.zeros(2), np.array([1.0, 0.0])]
        conn = []
        while len(pts) < n:
            # the new joint hangs on the last two joints, away from their line
            a, b = len(pts) - 2, len(pts) - 1
            mid, t = 0.5*(pts[a] + pts[b]), pts[b] - pts[a]
            nrm = np.array([-t[1], t[0]])*(1 if len(pts) % 2 == 0 else -1)
            pts.append(mid + nrm*rng.uniform(0.5, 1.2) + t*rng.uniform(-0.3, 0.3))
            conn += [[a, len(pts) - 1], [b, len(pts) - 1]]
        xy = (np.array(pts) @ gen.rot(rng, 2).T)*gen.scale(rng, 1e-2, 1e2)
        conn = np.array(conn)
        cons = np.zeros((n, 2), int)
        cons[:2] = -1
        lo = gen.loads(rng, n, 2)
        mats = np.column_stack([E*10**rng.uniform(-0.5, 0.5, 3), A*10**rng.uniform(-0.5, 0.5, 3)])
        m = model.Model(xy, conn, 6, mats, rng.integers(0, 3, len(conn)), cons, lo)
        U, route = solve(ctx, m, rng)
        d = m.data(rng)
        s = np.asarray(ctx.call("stress_truss", pos.stress_truss, d["nodes"], d["elements"], d["mats"], U))
        # joint equations only (no stiffness)
        F = gen.rhs_of(lo, n, 2)
        B = np.zeros((2*n, len(conn)))
        for i, (a, b) in enumerate(conn):
            t = (xy[b] - xy[a])/np.hypot(*(xy[b] - xy[a]))
            B[2*a:2*a + 2, i] += t
            B[2*b:2*b + 2, i] -= t
        N = np.linalg.solve(B[4:], -F.ravel()[4:])
        K, _ = m.full()
        cond = model.scaled_cond(K[np.ix_(m.free(), m.free())])
        ctx.close(s*mats[m.mid, 1], N, "determinate truss: member forces", 1e-12*cond + 1e-10, np.abs(N).max() or 1.0)
        ctx.note(kind="determinate truss", members=len(conn), route=route, cond=cond)
        ctx.key(xy, lo)
    elif which == 1:                          # springs in a row under end loads
        n = int(rng.integers(2, 12))
        k = 10**rng.uniform(-2, 2, n - 1)*gen.young(rng)
        x = np.concatenate([[0], np.cumsum(rng.uniform(0.1, 3, n - 1))])
        horizontal = rng.random() < 0.5
        ax = 0 if horizontal else 1
        xy = np.zeros((n, 2))
        xy[:, ax] = x*gen.pick(rng, 1, -1)
        cons = np.zeros((n, 2), int)
        cons[:, 1 - ax] = -1
        cons[0] = -1
        conn = np.array([[i, i + 1] for i in range(n - 1)])
        F = np.zeros((n, 2))
        F[1:, ax] = rng.normal(size=n - 1)*gen.log_uniform(rng, 1e-3, 1e3)
        lo = np.column_stack([np.arange(n), F])
        if rng.random() < 0.5:
            L = np.diff(x)
            mats, t = np.column_stack([k*L/A, np.full(n - 1, A)]), 6
        else:
            mats, t = k[:, None], 5
        m = model.Model(xy, conn, t, mats, np.arange(n - 1), cons, lo)
        U, route = solve(ctx, m, rng)
        cum = np.cumsum(F[::-1, ax])[::-1]
        u = np.concatenate([[0], np.cumsum(cum[1:]/k)])
        ctx.close(U[:, ax], u, "members in series", 1e-9, np.abs(cum[1:]/k).sum() or 1.0)
        ctx.note(kind="series", members=n - 1, route=route)
        ctx.key(xy, k, F)
    else:                                     # cantilever in any direction with tip load and moment
        t = 7 if rng.random() < 0.4 else 8
        n = int(rng.integers(2, 8))
        L = gen.log_uniform(rng, 0.1, 100)
        x = np.concatenate([[0], np.sort(rng.uniform(0.05, 0.95, n - 2)), [1]])*L
        th = gen.pick(rng, 0, np.pi/2, np.pi, -np.pi/2) if t == 7 else rng.uniform(0, 2*np.pi)
        tv = np.round(np.array([np.cos(th), np.sin(th)]), 15)
        nv = np.array([-tv[1], tv[0]])
        I = gen.log_uniform(rng, 1e-6, 1)*L**4*1e-2
        Ar = np.sqrt(I)*gen.log_uniform(rng, 1, 30)
        xy = np.outer(x, tv) + rng.uniform(-1, 1, 2)*L
        cons = np.zeros((n, 3), int)
        cons[0] = -1
        if t == 7:
            cons[:, int(np.argmax(np.abs(tv)))] = -1
        P, H, M = rng.normal(size=3)*gen.log_uniform(rng, 1e-3, 1e3)
        M *= L
        if t == 7:
            H = 0.0
        lo = np.array([[n - 1, *(P*nv + H*tv), M]])
        conn = np.array([[i, i + 1] if rng.random() < 0.5 else [i + 1, i] for i in range(n - 1)])
        mats = np.array([[E, I, Ar]]) if t == 8 else np.array([[E, I]])
        p = rng.permutation(n)
        inv = np.argsort(p)
        m = model.Model(xy[inv], p[conn], t, mats, np.zeros(n - 1, int), cons[inv],
                        np.column_stack([p[lo[:, 0].astype(int)], lo[:, 1:]]), nd=3)
        U, route = solve(ctx, m, rng)
        U = U[p]
        EI = E*I
        v = P*x**2*(3*L - x)/(6*EI) + M*x**2/(2*EI)
        r = P*x*(2*L - x)/(2*EI) + M*x/EI
        a = H*x/(E*Ar) if t == 8 else 0*x
        K, _ = m.full()
        cond = model.scaled_cond(K[np.ix_(m.free(), m.free())])
        tol = 1e-13*cond + 1e-10
        sc = np.abs(v).max() + np.abs(r).max()*L + np.abs(a).max()
        ctx.close(U[:, :2] @ nv, v, "cantilever deflection", tol, sc)
        ctx.close(U[:, 2]*L, r*L, "cantilever rotation", tol, sc)
        ctx.close(U[:, :2] @ tv, a, "cantilever axial displacement", tol, sc)
        ctx.note(kind="cantilever", type=t, members=n - 1, angle=th, route=route, cond=cond)
        ctx.key(xy, lo)
    ctx.event("closed-form structures")


def frames(ctx):
    rng = ctx.rng
    m = model.frame(rng) if ctx.index % 3 else model.beam_line(rng)
    U, route = solve(ctx, m, rng)
    what = "%s of %d members" % ("frame" if m.types[0] == 8 else "beam line", len(m.conn))
    _, cond = compare(ctx, m, U, what)
    # subdivision of members leaves the original nodes where they were
    xy, conn, mid, cons = list(map(tuple, m.xy)), [], [], [tuple(c) for c in m.cons]
    for i, (a, b) in enumerate(m.conn):
        k = int(rng.integers(1, 4))
        t = np.sort(rng.uniform(0.2, 0.8, k - 1))
        if k == 3 and t[1] - t[0] < 0.15:
            t = np.array([0.4, 0.7])
        last = int(a)
        for s in t:
            xy.append(tuple(m.xy[a] + s*(m.xy[b] - m.xy[a])))
            if m.types[0] == 7:
                ax = int(np.argmax(np.abs(m.xy[b] - m.xy[a])))
                c = [0, 0, 0]
                c[ax] = -1
                cons.append(tuple(c))
            else:
                cons.append((0, 0, 0))
            conn.append([last, len(xy) - 1])
            last = len(xy) - 1
            mid.append(m.mid[i])
        conn.append([last, int(b)])
        mid.append(m.mid[i])
    fine = model.Model(np.array(xy), np.array(conn), m.types[0], m.mats, np.array(mid), np.array(cons), m.loads, nd=3)
    V, _ = solve(ctx, fine, rng)
    K, _ = fine.full()
    cond2 = model.scaled_cond(K[np.ix_(fine.free(), fine.free())])
    w = model.dof_scale(m)
    ctx.close(V[:m.n]*w, U*w, what + " subdivided into %d" % len(conn), 1e-13*(cond + cond2) + 1e-10,
              np.abs(U*w).max() or 1.0)
    compare(ctx, fine, V, what + " subdivided")
    ctx.key(m.xy, m.conn, m.loads)
    ctx.note(kind="frame", type=m.types[0], nodes=m.n, members=len(m.conn), fine=len(conn), route=route,
             cond=cond, cond_fine=cond2)


def crowd(ctx):
    """stresses of more members, with more profiles, than 8- and 16-bit numbers count"""
    rng = ctx.rng
    n, ne = int(rng.integers(30, 400)), int(rng.integers(33000, 42000))
    if ctx.tier == "thorough" and rng.random() < 0.3:
        ne += 33000
    if rng.random() < 0.3:
        n += int(rng.integers(33000, 40000))
    a = rng.integers(0, n, ne)
    conn = np.column_stack([a, (a + rng.integers(1, n, ne)) % n])
    xy = rng.uniform(-1, 1, (n, 2))*gen.scale(rng, 1e-3, 1e3)
    nm = int(gen.pick(rng, 3, ne, ne, 33500))
    mats = np.exp(rng.uniform(-2, 2, (nm, 3)))
    mid = rng.permutation(np.arange(ne) % nm)
    m = model.Model(xy, conn, 6, mats, mid, np.zeros((n, 2), int), np.zeros((0, 3)))
    d = m.data(rng)
    U = rng.normal(size=(n, 2))*gen.log_uniform(rng, 1e-6, 1e3)
    s = np.asarray(ctx.call("stress_truss", pos.stress_truss, d["nodes"], d["elements"], d["mats"], gen.dress(rng, U)))
    v = xy[conn[:, 1]] - xy[conn[:, 0]]
    L = np.hypot(*v.T)
    E = mats[mid, 0]
    want = E*np.einsum("ij,ij->i", U[conn[:, 1]] - U[conn[:, 0]], v)/L**2
    what = "stresses of %d members with %d profiles" % (ne, nm)
    ctx.ok(s.shape == (ne,), what + ": shape %s" % (s.shape,))
    bad = ~(np.abs(s - want) <= 1e-10*E*np.abs(U).max()/L*(1 + np.abs(xy).max()/L))
    ctx.ok(not bad.any(), what, members=np.flatnonzero(bad)[:4], got=s[bad][:4], expected=want[bad][:4])
    ctx.event("member stresses", ne)
    ctx.high("members in one call", ne)
    ctx.key(xy, conn[:100], U)
    ctx.note(kind="crowd", members=ne, nodes=n, profiles=nm)


FAMILIES = [Family(crowd, 3, 40), Family(trusses, 300, 6000), Family(determinate, 240, 5000), Family(frames, 240, 5000)]
