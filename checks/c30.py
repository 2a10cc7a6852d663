"""C30 free vibration."""
import numpy as np
import scipy.linalg
import solidspy.assemutil as ass
from vlib.core import Family
from vlib import gen, model, ref

RULE = ("a case is a model (continuum, truss, frame, beam line, 3D/axisymmetric user elements) whose stiffness and "
        "mass come from the assembler; eigenvalues are examined for rigid modes, bounds under refinement and "
        "relaxation, closed-form values and scaling; distinct = (mesh, supports)")
ASSUMPTIONS = ["refinement monotonicity on triangles and parallelograms, where the quadrature is exact",
               "rigid modes told from others at 1e-11 of the largest eigenvalue"]


def system(ctx, m, rng=None):
    nodes, els = m.tables(rng)
    kw = {} if m.nd == 2 else {"ndof_node": m.nd}
    op, bc, neq = ctx.call("DME", ass.DME, m.cons if rng is None else gen.dress(rng, m.cons), els, **kw,
                           **model.dme_args(m))
    K, M = ctx.call("assembler", ass.assembler, els, m.mats, nodes, neq, op, **model.uel_args(m))
    return K.toarray(), M.toarray()


def eig(ctx, K, M, what):
    s, t = np.abs(K).max(), np.abs(M).max()
    ctx.close(K, K.T, what + ": stiffness not symmetric", 1e-11, s)
    ctx.close(M, M.T, what + ": mass not symmetric", 1e-11, t)
    ctx.ok(np.linalg.eigvalsh(M).min() > 0, what + ": mass not positive definite")
    return scipy.linalg.eigvalsh(0.5*(K + K.T), 0.5*(M + M.T))


def massive(rng, kinds=("continuum", "continuum", "truss", "frame", "line", "user")):
    k = gen.pick(rng, *kinds)
    if k == "truss":
        m = model.truss(rng, "truss")
        if m.mats.shape[1] == 3:
            m.mats[:, 2] = rng.uniform(0.5, 2, len(m.mats))
        return m, k
    if k == "continuum":
        m = model.continuum(rng)
    else:
        m, _ = model.any_model(rng, (k,))
    if m.mats.shape[1] > 2 and k in ("continuum", "user"):
        m.mats[:, 2] = m.mats[0, 2]*rng.uniform(0.3, 1, len(m.mats))
    if k == "line":                             # one axis: the freedoms along it carry no mass
        if m.mats.shape[1] > 2:
            m.mats[:, 2:] = rng.uniform(0.5, 2, m.mats[:, 2:].shape)
    return m, k


def n_rigid(m, k):
    if k == "line":
        return 2
    return {"axi": 1, "tet4": 6, "hex8": 6}.get(m.user, 3)


def rigid(ctx):
    rng = ctx.rng
    m, k = massive(rng)
    what = "%s of %d elements" % (m.user or k, len(m.conn))
    held = m.cons
    free = np.zeros_like(m.cons)
    if k == "line":
        ax = int(np.argmax(np.ptp(m.xy, axis=0)))
        free[:, ax] = -1
    r = n_rigid(m, k)
    fm = m.reorder(cons=free)
    K, M = system(ctx, fm, rng)
    lam = eig(ctx, K, M, "free " + what)
    top = lam[-1]
    ctx.ok(lam[0] > -1e-10*top, "free %s: negative eigenvalue %g of %g" % (what, lam[0], top))
    Kr, Mr = fm.full()
    fr = fm.free()
    want = scipy.linalg.eigvalsh(Kr[np.ix_(fr, fr)], Mr[np.ix_(fr, fr)])
    ctx.close(lam, want, "free %s: eigenvalues" % what, 1e-9, want[-1])
    if len(want) > r and want[r] > 3e-11*top:
        zeros = int((lam < 1e-11*top).sum())
        ctx.ok(zeros == r, "free %s: %d zero frequencies, the model has %d rigid motions" % (what, zeros, r),
               lowest=lam[:r + 2]/top)
        ctx.event("rigid modes counted", r)
    # held
    K2, M2 = system(ctx, m)
    if len(K2):
        mu = eig(ctx, K2, M2, "held " + what)
        wr = scipy.linalg.eigvalsh(Kr2(m)[0], Kr2(m)[1])
        if wr[0] > 1e-9*wr[-1]:
            ctx.ok(mu[0] > 0.5e-9*mu[-1], "held %s: zero frequency" % what, lowest=mu[0], top=mu[-1])
            ctx.close(mu[:1], wr[:1], "held %s: fundamental frequency" % what, 1e-9*wr[-1]/wr[0], wr[0])
            ctx.event("held models")
    # supports can only raise them (interlacing)
    extra = held.copy()
    cand = np.flatnonzero(extra.ravel() == 0)
    if len(cand) > 1:
        q = rng.permutation(cand)[:int(rng.integers(1, min(4, len(cand))))]
        extra.ravel()[q] = -1
        K3, M3 = system(ctx, m.reorder(cons=extra), rng)
        if len(K3):
            nu = eig(ctx, K3, M3, what + " with more supports")
            mu = eig(ctx, K2, M2, what)
            n = len(nu)
            ctx.ok(np.all(nu >= mu[:n] - 1e-9*mu[-1]), what + ": adding supports lowers a frequency")
            ctx.ok(np.all(nu <= mu[len(mu) - n:] + 1e-9*mu[-1]), what + ": supports raise frequencies beyond interlacing")
            ctx.event("support sets compared")
    ctx.key(m.xy, m.conn, held)
    ctx.note(kind=m.user or k, freedoms=len(lam), rigid=r, spread=lam[-1]/max(lam[min(r, len(lam) - 1)], 1e-300))


def Kr2(m):
    K, M = m.full()
    f = m.free()
    return K[np.ix_(f, f)], M[np.ix_(f, f)]


def scaling(ctx):
    rng = ctx.rng
    m, k = massive(rng)
    if m.mats.shape[1] < 3 or k == "line" and m.mats.shape[1] < 3:
        m.mats = np.column_stack([m.mats, np.ones(len(m.mats))])
    if k == "frame" and m.mats.shape[1] < 4:
        m.mats = np.column_stack([m.mats, np.ones(len(m.mats))])
    a, b, s = gen.log_uniform(rng, 1e-3, 1e3), gen.log_uniform(rng, 1e-3, 1e3), gen.log_uniform(rng, 1e-2, 1e2)
    rho = 3 if k == "frame" else 2
    K, M = system(ctx, m, rng)
    if not len(K):
        return
    lam = eig(ctx, K, M, k)
    mats = np.array(m.mats, float)
    mats[:, 0] *= a
    mats[:, rho] *= b
    if k in ("frame", "line"):
        mats[:, 1] *= s**4
        if k == "frame":
            mats[:, 2] *= s**2
        elif mats.shape[1] > 3:
            mats[:, 3] *= s**2
    if k == "truss":
        mats[:, 1] *= s**2
    m2 = m.reorder(mats=mats, xy=m.xy*s)
    K2, M2 = system(ctx, m2, rng)
    mu = eig(ctx, K2, M2, k)
    f = a/b/s**2
    if k == "line" and mats.shape[1] <= 3:       # mass per length stays, stiffness grows
        f *= s**2
    ctx.close(mu, lam*f, "%s: eigenvalues scaled by modulus %g, density %g, size %g" % (m.user or k, a, b, s),
              1e-8, (lam*f)[-1])
    if lam[0] > 1e-6*lam[-1]:
        ctx.close(mu[:1], lam[:1]*f, "%s: fundamental frequency scaled" % (m.user or k), 1e-7)
    ctx.key(m.xy, a, b, s)
    ctx.note(kind=m.user or k, modulus=a, density=b, size=s)


def refine(name, xy, conn):
    """nested subdivision of every element in four; returns corner meshes elevated again"""
    nc = 3 if name.startswith("tri") else 4
    c = conn[:, :nc]
    pts = [tuple(p) for p in xy]
    mids, out = {}, []

    def mid(a, b):
        k = (min(a, b), max(a, b))
        if k not in mids:
            mids[k] = len(pts)
            pts.append(tuple(0.5*(np.array(pts[a]) + np.array(pts[b]))))
        return mids[k]
    for el in c:
        el = [int(v) for v in el]
        ms = [mid(el[i], el[(i + 1) % nc]) for i in range(nc)]
        if nc == 3:
            a, b, d = el
            out += [[a, ms[0], ms[2]], [ms[0], b, ms[1]], [ms[2], ms[1], d], [ms[0], ms[1], ms[2]]]
        else:
            pts.append(tuple(np.mean([pts[i] for i in el], axis=0)))
            g = len(pts) - 1
            a, b, d, e = el
            out += [[a, ms[0], g, ms[3]], [ms[0], b, ms[1], g], [g, ms[1], d, ms[2]], [ms[3], g, ms[2], e]]
    return np.array(pts), np.array(out)


def nested(ctx):
    rng = ctx.rng
    name = ["tri3", "quad4", "tri6", "quad9"][ctx.index % 4]
    base = "tri3" if name.startswith("tri") else "quad4"
    kind = None if base == "tri3" else "grid"
    xy, conn = gen.mesh2d(rng, base, (int(rng.integers(1, 3)), int(rng.integers(1, 3))), kind=kind, scl=1.0)
    E, nu, rho = gen.young(rng), gen.poisson(rng), rng.uniform(0.5, 3)
    d = rng.normal(size=2)
    side = xy @ d
    cut = np.sort(side)[max(1, len(xy)//4)]
    hold = None
    lams, sizes = [], []
    for level in range(3 if name in ("tri3", "quad4") else 2):
        X, C = (xy, conn) if name == base else gen.elevate(None, xy, conn, name)
        if hold is None:                         # held corner nodes of the first mesh keep their numbers
            hold = np.flatnonzero(side <= cut)
        cons = np.zeros((len(X), 2), int)
        cons[hold] = -1
        p = rng.permutation(len(X))
        inv = np.argsort(p)
        m = model.Model(X[inv], gen.rotate_local(rng, name, p[C]), ref.TYPE_ID[name], np.array([[E, nu, rho]]),
                        np.zeros(len(C), int), cons[inv], None)
        K, M = system(ctx, m)
        lams.append(eig(ctx, K, M, name))
        sizes.append(len(K))
        xy, conn = refine(base, xy, conn)
    for a, b in zip(lams, lams[1:]):
        n = len(a)
        ctx.ok(np.all(b[:n] <= a*(1 + 1e-8) + 1e-10*a[-1]), "%s: refinement raises a frequency" % name,
               coarse=a[:4], fine=b[:4])
        ctx.event("nested refinements")
    # enriching the elements likewise
    if name in ("tri3", "quad4"):
        up = "tri6" if name == "tri3" else "quad9"
        xy, conn = gen.mesh2d(rng, base, (2, 1), kind=kind, scl=1.0)
        cons = np.zeros((len(xy), 2), int)
        h = rng.permutation(len(xy))[:2]
        cons[h] = -1
        m1 = model.Model(xy, conn, ref.TYPE_ID[name], np.array([[E, nu, rho]]), np.zeros(len(conn), int), cons, None)
        X, C = gen.elevate(None, xy, conn, up)
        cons2 = np.zeros((len(X), 2), int)
        cons2[h] = -1
        m2 = model.Model(X, C, ref.TYPE_ID[up], m1.mats, m1.mid, cons2, None)
        a, b = eig(ctx, *system(ctx, m1), name), eig(ctx, *system(ctx, m2), up)
        ctx.ok(np.all(b[:len(a)] <= a*(1 + 1e-8) + 1e-10*a[-1]), "%s enriched to %s: a frequency rises" % (name, up))
    ctx.key(lams[0], lams[-1])
    ctx.note(family=name, sizes=sizes, fundamental=[v[0] for v in lams], E=E, nu=nu, rho=rho)


def closed(ctx):
    rng = ctx.rng
    which = ctx.index % 4
    E, rho = gen.young(rng), rng.uniform(0.5, 3)
    L = gen.log_uniform(rng, 0.1, 100)
    if which == 0:                               # bar, any direction
        n = int(rng.integers(2, 30))
        A = gen.log_uniform(rng, 1e-3, 1)
        ax = int(rng.integers(2))
        xy = np.zeros((n + 1, 2))
        xy[:, ax] = np.linspace(0, L, n + 1)
        cons = np.zeros((n + 1, 2), int)
        cons[:, 1 - ax] = -1
        cons[0] = -1
        ends = gen.pick(rng, "fixed-free", "fixed-fixed")
        if ends == "fixed-fixed":
            cons[-1] = -1
        m = model.Model(xy, np.array([[i, i + 1] for i in range(n)]), 6, np.array([[E, A, rho]]), np.zeros(n, int), cons, None)
        lam = eig(ctx, *system(ctx, m, rng), "bar")
        j = np.arange(1, len(lam) + 1)
        kL = (j - 0.5)*np.pi if ends == "fixed-free" else j*np.pi
        exact = E/rho*(kL/L)**2
        c = np.cos(kL/n)
        disc = 6*E/(rho*(L/n)**2)*(1 - c)/(2 + c)
        ctx.close(lam, np.sort(disc), "bar %s of %d members: discrete frequencies" % (ends, n), 1e-9)
        ctx.ok(np.all(lam >= exact*(1 - 1e-10)), "bar: frequencies below the exact ones")
        if n >= 10:
            ctx.close(lam[:2], exact[:2], "bar: exact frequencies", 0.1)
        what = "bar " + ends
    elif which == 1:                             # beam
        n = int(rng.integers(2, 12))
        I, A = gen.log_uniform(rng, 1e-4, 1)*L**4*1e-3, gen.log_uniform(rng, 1e-3, 1)*L**2
        ends = gen.pick(rng, "cantilever", "supported", "clamped", "free")
        t = 7 if rng.random() < 0.5 else 8
        th = gen.pick(rng, 0.0, np.pi/2) if t == 7 else rng.uniform(0, 2*np.pi)
        tv = np.round([np.cos(th), np.sin(th)], 15)
        x = np.linspace(0, L, n + 1)
        cons = np.zeros((n + 1, 3), int)
        if t == 7:
            cons[:, int(np.argmax(np.abs(tv)))] = -1
            mats = np.array([[E, I, rho, A]])
        else:
            ends = gen.pick(rng, "cantilever", "clamped", "free")
            mats = np.array([[E, I, A, rho]])
        if ends == "cantilever":
            cons[0] = -1
        elif ends == "supported":
            cons[[0, -1], :2] = -1
        elif ends == "clamped":
            cons[[0, -1]] = -1
        m = model.Model(np.outer(x, tv), np.array([[i, i + 1] for i in range(n)]), t, mats, np.zeros(n, int), cons, None, nd=3)
        lam = eig(ctx, *system(ctx, m, rng), "beam")
        b = {"cantilever": [1.875104068711961, 4.694091132974175], "supported": [np.pi, 2*np.pi],
             "clamped": [4.730040744862704, 7.853204624095838], "free": [4.730040744862704, 7.853204624095838]}[ends]
        bend = E*I/(rho*A)*(np.array(b)/L)**4
        if ends == "free":
            r = 2 if t == 7 else 3
            ctx.ok(np.all(lam[:r] < 1e-9*lam[-1]) and lam[r] > 1e-11*lam[-1], "free beam: rigid modes")
        tiny = 1e-9*lam[-1]/bend[0]              # conditioning of the smallest eigenvalues
        for bl, e in zip(b, bend):
            if n*2 < 2*bl/np.pi or tiny > 1e-3:  # too coarse to carry the mode
                continue
            up = (bl/n)**4/300 + 1e-7 + tiny     # theory: (bl/n)^4/720 and higher terms
            ctx.ok(np.any((lam/e - 1 >= -1e-7 - tiny) & (lam/e - 1 <= up)),
                   "beam %s of %d members: no frequency near the exact one" % (ends, n), exact=e, allowed=up,
                   found=lam[np.argsort(np.abs(lam/e - 1))[:3]]/e)
            ctx.event("beam frequencies matched")
        ctx.high("freedoms", len(lam))
        what = "beam %s type %d" % (ends, t)
    else:                                        # rectangular plate on rollers, in-plane modes
        name = gen.pick(rng, "quad4", "quad9", "tri3", "tri6")
        n = {"quad4": 7, "quad9": 4, "tri3": 8, "tri6": 4}[name]
        nu = gen.poisson(rng)
        H = L*rng.uniform(0.7, 1.4)
        nx, ny = n, n + int(rng.integers(0, 2))
        x, y = np.meshgrid(np.linspace(0, L, nx + 1), np.linspace(0, H, ny + 1))
        xy = np.column_stack([x.ravel(), y.ravel()])
        q = np.array([[j*(nx + 1) + i, j*(nx + 1) + i + 1, (j + 1)*(nx + 1) + i + 1, (j + 1)*(nx + 1) + i]
                      for j in range(ny) for i in range(nx)])
        if name.startswith("tri"):
            q = np.array([t for k, (a, b, c, d) in enumerate(q) for t in
                          (([a, b, c], [a, c, d]) if k % 2 else ([a, b, d], [b, c, d]))])
        if name in ("tri6", "quad9"):
            xy, q = gen.elevate(None, xy, q, name)
        cons = np.zeros((len(xy), 2), int)
        for d, S in ((0, L), (1, H)):
            cons[(np.abs(xy[:, d]) < 1e-9*S) | (np.abs(xy[:, d] - S) < 1e-9*S), d] = -1
        m = model.Model(xy, q, ref.TYPE_ID[name], np.array([[E, nu, rho]]), np.zeros(len(q), int), cons, None)
        lam = eig(ctx, *system(ctx, m, rng), "plate")
        cp, cs = E/(1 - nu**2)/rho, E/(2*(1 + nu))/rho
        ex = []
        for i in range(12):
            for j in range(12):
                k2 = (i*np.pi/L)**2 + (j*np.pi/H)**2
                if i + j:
                    ex.append(cp*k2)
                if i and j:
                    ex.append(cs*k2)
        ex = np.sort(ex)
        k = 4
        ctx.ok(np.all(lam[:30] >= ex[:30]*(1 - 1e-9)), "plate on rollers (%s): frequencies below the exact ones" % name)
        err = lam[:k]/ex[:k] - 1
        ctx.ok(err.max() < {"quad4": 0.35, "tri3": 0.6, "quad9": 0.03, "tri6": 0.06}[name],
               "plate on rollers (%s): frequencies far from the exact ones" % name, got=lam[:k], exact=ex[:k])
        ctx.high("plate error " + name, err.max())
        what = "plate " + name
    ctx.event("closed forms: " + what.split()[0])
    ctx.key(what, E, rho, L, lam)
    ctx.note(case=what, E=E, rho=rho, L=L, freedoms=len(lam))


FAMILIES = [Family(rigid, 160, 3000), Family(scaling, 80, 1500), Family(nested, 80, 1500), Family(closed, 120, 2000)]
