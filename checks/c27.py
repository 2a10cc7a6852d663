"""C27 wave physics of Bloch-reduced problems."""
import numpy as np
import scipy.linalg
import solidspy.assemutil as ass
import solidspy.blochutil as blo
from vlib.core import Family
from vlib import gen, model, ref

RULE = ("a case is a periodic medium (irregular cell of continuum elements, truss or frame lattice, chain; any "
        "lattice vectors, several materials) and wavevectors; spectra of the cell, of supercells, of shifted "
        "cells and of an independently assembled periodic ring are compared; distinct = (medium, wavevector)")
ASSUMPTIONS = ["eigenvalues compared to 1e-8 of the largest"]


class Medium:
    def __init__(self, rng, name):
        self.name = name
        self.n1, self.n2 = int(rng.integers(1, 4)), int(rng.integers(1, 4))
        if name in ("tri6", "quad9"):
            self.n1, self.n2 = int(rng.integers(1, 3)), int(rng.integers(1, 3))
        a = gen.scale(rng, 1e-3, 1e3)
        A = gen.affine(rng, 2, 3.0)*a
        if rng.random() < 0.3:
            A = np.eye(2)*a
        self.A = A                              # columns: one grid step in each direction
        self.P = rng.uniform(-0.2, 0.2, (self.n1, self.n2, 2))*(rng.random() < 0.7)
        nm = int(rng.integers(1, 4))
        self.mid = rng.integers(0, nm, (self.n1, self.n2, 4))
        if rng.random() < 0.4:
            self.mid[:] = 0
        self.diag = rng.integers(0, 2, (self.n1, self.n2))
        if name == "truss":
            L = np.sqrt(abs(np.linalg.det(A)))
            E = gen.young(rng)
            self.mats = np.column_stack([E*rng.uniform(0.5, 2, nm), L*0.01*rng.uniform(0.5, 2, nm), rng.uniform(1, 3, nm)])
            self.types, self.nd = 6, 2
        elif name == "frame":
            L = np.sqrt(abs(np.linalg.det(A)))
            Ar = (0.1*L)**2*rng.uniform(0.5, 2, nm)
            self.mats = np.column_stack([gen.young(rng)*np.ones(nm), Ar*(0.05*L)**2*rng.uniform(0.5, 2, nm), Ar,
                                         rng.uniform(1, 3, nm)])
            self.types, self.nd = 8, 3
        else:
            self.mats = gen.materials(rng, nm, 3)
            self.mats[:, 2] = self.mats[0, 2]*rng.uniform(0.5, 2, nm)
            self.types, self.nd = ref.TYPE_ID[name], 2

    def mesh(self, N=(1, 1), shift=(0, 0)):
        """(logical coordinates, coordinates, connectivity, materials) of N cells"""
        w, h = self.n1*N[0], self.n2*N[1]
        lg = np.array([(i, j) for j in range(h + 1) for i in range(w + 1)], float)
        P = np.array([self.P[(int(i) + shift[0]) % self.n1, (int(j) + shift[1]) % self.n2] for i, j in lg])
        xy = (lg + P) @ self.A.T
        quads, mid, diag = [], [], []
        for j in range(h):
            for i in range(w):
                a = j*(w + 1) + i
                quads.append([a, a + 1, a + w + 2, a + w + 1])
                c = (i + shift[0]) % self.n1, (j + shift[1]) % self.n2
                mid.append(self.mid[c])
                diag.append(self.diag[c])
        quads = np.array(quads)
        if self.name in ("quad4", "quad9"):
            conn, m = quads, [v[0] for v in mid]
            if self.name == "quad9":
                xy, c2 = gen.elevate(None, xy, conn, "quad9")
                lg, conn = gen.elevate(None, lg, conn, "quad9")
        elif self.name in ("tri3", "tri6"):
            conn, m = [], []
            for (a, b, c, d), v, g in zip(quads, mid, diag):
                conn += [[a, b, c], [a, c, d]] if g else [[a, b, d], [b, c, d]]
                m += [v[0], v[1]]
            conn = np.array(conn)
            if self.name == "tri6":
                xy, c2 = gen.elevate(None, xy, conn, "tri6")
                lg, conn = gen.elevate(None, lg, conn, "tri6")
        else:                                   # lower and left edges and both diagonals of each cell
            conn, m = [], []
            for (a, b, c, d), v in zip(quads, mid):
                conn += [[a, b], [a, d], [a, c], [b, d]]
                m += list(v)
            conn = np.array(conn)
        return lg, xy, conn, np.array(m)

    def system(self, ctx, rng, N=(1, 1), shift=(0, 0)):
        """assembled by the code; pairing by logical position"""
        lg, xy, conn, mid = self.mesh(N, shift)
        p = rng.permutation(len(xy))
        new = np.empty_like(xy)
        nl = np.empty_like(lg)
        new[p], nl[p] = xy, lg
        conn = p[conn]
        m = model.Model(new, conn, self.types, self.mats, mid, np.zeros((len(xy), self.nd), int), None, nd=self.nd)
        nodes, els = m.tables(rng)
        op, bc, neq = ctx.call("DME", ass.DME, np.zeros((len(xy), self.nd)), els,
                               **({} if self.nd == 2 else {"ndof_node": self.nd}))
        K, M = ctx.call("assembler", ass.assembler, els, self.mats, nodes, neq, op)
        bc = np.asarray(bc)
        w, h = self.n1*N[0], self.n2*N[1]
        pos = {tuple(np.round(2*v).astype(int)): i for i, v in enumerate(nl)}
        ima, ref_ = [], []
        for i in rng.permutation(len(new)):
            key = np.round(2*nl[i]).astype(int)
            base = key % [2*w, 2*h]
            if not np.array_equal(key, base):
                ima.append(int(i))
                ref_.append(pos[tuple(base)])
        return Bloch(ctx, K, M, new, bc, ima, ref_)

    def ring(self, N):
        """independent periodic ring of N cells"""
        lg, xy, conn, mid = self.mesh(N)
        w, h = self.n1*N[0], self.n2*N[1]
        m = model.Model(xy, conn, self.types, self.mats, mid, np.zeros((len(xy), self.nd), int), None, nd=self.nd)
        num, own = {}, []
        for v in lg:
            k = tuple(np.round(2*v).astype(int) % [2*w, 2*h])
            own.append(num.setdefault(k, len(num)))
        own = np.array(own)
        ks, ms = zip(*[m.element_matrices(e) for e in range(len(conn))])
        n = len(num)*self.nd
        return ref.scatter(n, own[conn], self.nd, ks), ref.scatter(n, own[conn], self.nd, ms)

    def reciprocal(self):
        """columns b_i with a_j . b_i = 2 pi delta for the cell vectors"""
        cell = self.A @ np.diag([self.n1, self.n2])
        return 2*np.pi*np.linalg.inv(cell).T


def equilibrate(K, M):
    """unit masses: rotations and translations have different units"""
    d = np.sqrt(np.maximum(np.diag(M).real, 1e-300))
    return K/np.outer(d, d), M/np.outer(d, d)


class Bloch:
    def __init__(self, ctx, K, M, xy, bc, ima, ref_):
        self.ctx, self.K, self.M, self.xy = ctx, K, M, xy
        self.ima, self.ref = ima, ref_
        self.rd = {r: [int(v) for v in bc[r] if v >= 0] for r in ref_}
        self.id = {i: [int(v) for v in bc[i] if v >= 0] for i in ima}
        self.dr = [d for r in ref_ for d in self.rd[r]]
        self.di = [d for i in ima for d in self.id[i]]
        self.n = K.shape[0]
        self.new = ctx.call("reassign_dof_bloch", blo.reassign_dof_bloch, self.n, self.di, self.dr)

    def reduced(self, k):
        T = self.ctx.call("bloch_transform_mat", blo.bloch_transform_mat, k, self.xy, self.n, self.ref, self.ima,
                          self.dr, self.di, self.rd, self.id, self.new)
        TH = T.conj().T
        return (TH @ self.K @ T).toarray(), (TH @ self.M @ T).toarray()

    def freq(self, k, what):
        ctx = self.ctx
        K, M = self.reduced(k)
        s, t = np.abs(self.K).max(), np.abs(M).max()
        ctx.close(K, K.conj().T, what + ": stiffness not Hermitian", 1e-10, s)
        ctx.close(M, M.conj().T, what + ": mass not Hermitian", 1e-10, t)
        K, M = 0.5*(K + K.conj().T), 0.5*(M + M.conj().T)
        ctx.ok(np.diag(M).real.min() > 0, what + ": mass not positive definite")
        K, M = equilibrate(K, M)
        ctx.ok(np.linalg.eigvalsh(M).min() > 0, what + ": mass not positive definite")
        lam = scipy.linalg.eigvalsh(K, M)
        top = self.top
        ctx.ok(lam.min() > -1e-9*top, what + ": negative squared frequency", lowest=lam.min(), top=top)
        return lam

    def scale(self):
        K, M = self.reduced(np.zeros(self.xy.shape[1]))
        lam = scipy.linalg.eigvalsh(*equilibrate(0.5*(K + K.conj().T), 0.5*(M + M.conj().T)))
        d = np.linalg.eigvalsh(self.K.toarray()).max()/np.linalg.eigvalsh(self.M.toarray()).max()
        self.top = max(lam.max(), d)
        return lam


def medium(ctx):
    rng = ctx.rng
    name = ["tri3", "quad4", "truss", "frame", "tri6", "quad9"][ctx.index % 6]
    med = Medium(rng, name)
    cell = med.system(ctx, rng)
    lam0 = cell.scale()
    B = med.reciprocal()
    what = "%s cell of %dx%d" % (name, med.n1, med.n2)
    # rigid translation at zero wavevector
    K0, _ = cell.reduced(np.zeros(2))
    nzero = int((lam0 < 1e-9*cell.top).sum())
    ctx.ok(nzero >= 2 and (name == "truss" or nzero == 2), what + ": %d zero frequencies at zero wavevector" % nzero,
           lowest=lam0[:4], top=cell.top)
    c = rng.uniform(-0.5, 0.5, 2)
    k = B @ c
    lam = cell.freq(k, what)
    top = cell.top = max(cell.top, lam.max())
    tol = 1e-8
    ctx.close(cell.freq(-k, what), lam, what + ": frequencies not even in the wavevector", tol, top)
    G = B @ rng.integers(-2, 3, 2)
    ctx.close(cell.freq(k + G, what), lam, what + ": frequencies not periodic", tol, top)
    ctx.close(cell.freq(np.zeros(2) + B @ [1, -1], what), cell.freq(np.zeros(2), what),
              what + ": frequencies at a lattice point", tol, top)
    # supercell
    N = gen.pick(rng, (2, 1), (1, 2), (2, 2), (3, 1), (1, 3))
    if name in ("tri6", "quad9"):
        N = gen.pick(rng, (2, 1), (1, 2))
    sup = med.system(ctx, rng, N)
    sup.top = top
    fold = np.sort(np.concatenate([cell.freq(k + B @ [i/N[0], j/N[1]], what) for i in range(N[0]) for j in range(N[1])]))
    ctx.close(sup.freq(k, what), fold, what + ": supercell %s does not fold" % (N,), tol, max(top, fold.max()))
    # another cell of the same medium
    sh = (int(rng.integers(0, med.n1)), int(rng.integers(0, med.n2)))
    other = med.system(ctx, rng, (1, 1), sh)
    other.top = top
    ctx.close(other.freq(k, what), lam, what + ": cell shifted by %s" % (sh,), tol, top)
    # finite ring
    Kr, Mr = med.ring(N)
    ring = scipy.linalg.eigvalsh(*equilibrate(Kr, Mr))
    modes = np.sort(np.concatenate([cell.freq(B @ [i/N[0], j/N[1]], what) for i in range(N[0]) for j in range(N[1])]))
    ctx.close(modes, ring, what + ": modes of the ring of %s cells" % (N,), tol, max(top, ring.max()))
    # homogeneous continuum: sound speeds of long waves
    if name not in ("truss", "frame") and np.ptp(med.mid[:, :, :2]) == 0:
        # (long, down to ten thousand cells per wave)
        E, nu, rho = med.mats[med.mid[0, 0, 0]]
        q = B @ c*gen.pick(rng, 1e-2, 1e-3, 1e-4)
        w = cell.freq(q, what)[:2]
        cp, cs = E/(1 - nu**2)/rho, E/(2*(1 + nu))/rho
        if np.linalg.norm(c) > 0.05:
            ctx.close(w/(q @ q), np.sort([cp, cs]), what + ": sound speeds", 5e-3 + 1e-12*top/(w[0] or 1e-300), max(cp, cs))
            ctx.event("sound speeds")
    ctx.event("wavevectors", 4 + 2*N[0]*N[1])
    ctx.key(cell.xy, k)
    ctx.note(kind=name, cell=(med.n1, med.n2), supercell=N, freedoms=cell.n, wavevector=k)


def chain(ctx):
    """one-dimensional chains with closed-form dispersion"""
    rng = ctx.rng
    which = ctx.index % 3
    a = gen.log_uniform(rng, 1e-2, 1e2)          # spacing
    cells = int(rng.integers(1, 6))
    n = 2*cells if which == 2 else cells         # springs in the cell
    th = gen.pick(rng, 0.0, np.pi/2)             # along x or y
    ax = 0 if th == 0 else 1
    xy = np.zeros((n + 1, 2))
    xy[:, ax] = np.arange(n + 1)*a + rng.normal()
    conn = np.array([[i, i + 1] for i in range(n)])
    cons = np.zeros((n + 1, 2), int)
    cons[:, 1 - ax] = -1
    p = rng.permutation(n + 1)
    inv = np.argsort(p)
    E, A, rho = gen.young(rng), gen.log_uniform(rng, 1e-3, 1), rng.uniform(0.5, 5)
    kk = gen.young(rng)
    mats = np.array([[E, A, rho]]) if which == 1 else np.array([[kk]])
    m = model.Model(xy[inv], p[conn], 6 if which == 1 else 5, mats, np.zeros(n, int), cons[inv], None)
    nodes, els = m.tables(rng)
    op, bc, neq = ctx.call("DME", ass.DME, gen.dress(rng, m.cons), els)
    K, M = ctx.call("assembler", ass.assembler, els, mats, nodes, neq, op)
    bc = np.asarray(bc)
    first, last = int(p[0]), int(p[n])
    if which != 1:
        m1 = rng.uniform(0.5, 5)
        m2 = rng.uniform(0.5, 5) if which == 2 else m1
        d = np.zeros(neq)
        for i in range(n + 1):
            d[bc[p[i], ax]] = (m1 if i % 2 == 0 else m2)*(0.5 if i in (0, n) else 1)
        from scipy.sparse import csr_matrix
        M = csr_matrix(np.diag(d))
    b = Bloch(ctx, K, M, xy[inv], bc, [last], [first])
    q = rng.uniform(-np.pi, np.pi)/a
    if rng.random() < 0.5:                       # very long waves, and waves next to the zone boundary
        q = (gen.pick(rng, 0.0, np.pi)/n + gen.log_uniform(rng, 1e-6, 1e-1)*gen.pick(rng, 1, -1))/a
    k = np.zeros(2)
    k[ax] = q
    k[1 - ax] = rng.normal()                     # across the chain: no effect
    b.top = (4*kk/min(m1, m2)) if which != 1 else 12*E/(rho*a**2)
    lam = b.freq(k, "chain")
    if which == 2:
        qs = q + 2*np.pi*np.arange(cells)/(n*a)
        s = kk*(1/m1 + 1/m2)
        r = kk*np.sqrt((1/m1 + 1/m2)**2 - 4*np.sin(qs*a)**2/(m1*m2))
        want = np.concatenate([s - r, s + r])
        what = "diatomic chain"
    elif which == 1:
        qs = q + 2*np.pi*np.arange(n)/(n*a)
        want = 6*E/(rho*a**2)*(1 - np.cos(qs*a))/(2 + np.cos(qs*a))
        what = "bar chain"
    else:
        qs = q + 2*np.pi*np.arange(n)/(n*a)
        want = 4*kk/m1*np.sin(qs*a/2)**2
        what = "spring chain"
    want = np.sort(want)
    ctx.ok(lam.shape == want.shape, "%s of %d members: %d frequencies" % (what, n, len(lam)))
    bad = np.abs(lam - want) > 3e-13*(n + 3)*b.top + 1e-9*want
    ctx.ok(not bad.any(), "%s of %d members: dispersion at k=%g" % (what, n, q), got=lam[bad], expected=want[bad],
           top=b.top)
    ctx.high("largest deviation over the top frequency", (np.abs(lam - want)/b.top).max())
    ctx.event("dispersion values", len(want))
    ctx.key(xy, q)
    ctx.note(kind=what, members=n, wavenumber=q)


FAMILIES = [Family(medium, 90, 2000), Family(chain, 120, 2000)]
