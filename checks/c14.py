"""C14 the static solver solves what it is given."""
import numpy as np
import scipy.sparse as sps
import solidspy.assemutil as ass
import solidspy.solutil as sol
from vlib.core import Family
from vlib import gen, ref

RULE = ("a case is a non-singular system (SPD, indefinite, non-symmetric, permutation-like, triangular, "
        "graded over many decades, assembled models; float/int; dense C/F/strided or CSR with unsorted or "
        "duplicate or explicit-zero entries); oracle = residual relative to |A||x|+|b|; distinct = matrix")
ASSUMPTIONS = ["backward error bound 1e-10 n (relative to the norms) covers pivoted LU in double precision"]


def system(rng):
    while True:
        A, k = candidate(rng)
        s = np.abs(A).max(axis=1)
        if s.min() > 0 and (k in ("graded", "diag", "one") or np.linalg.cond(A) < 1e10):
            return A, k


def candidate(rng):
    k = gen.pick(rng, "spd", "random", "indefinite", "perm", "tri", "graded", "int", "diag", "banded", "one", "nearly")
    n = 1 if k == "one" else int(gen.pick(rng, 2, 3, rng.integers(2, 40), rng.integers(40, 120)))
    A = rng.normal(size=(n, n))
    if k == "spd":
        A = A @ A.T + n*np.eye(n)
    elif k == "nearly":                           # symmetric up to a small convective part
        A = A @ A.T + n*np.eye(n)
        W = rng.normal(size=(n, n))*(rng.random((n, n)) < 0.5)
        A = A + (W - W.T)*np.abs(A).max()*10.0**rng.uniform(-9, -1)
        A = A*10.0**rng.uniform(-6, 6)
    elif k == "random":
        A = A + np.sqrt(n)*np.eye(n)[rng.permutation(n)]*2
    elif k == "indefinite":
        q = np.linalg.qr(A)[0]
        A = q @ np.diag(rng.choice([-1, 1], n)*rng.uniform(0.5, 3, n)) @ q.T
        A = 0.5*(A + A.T)
    elif k == "perm":
        A = np.eye(n)[rng.permutation(n)]*rng.uniform(0.5, 2, n)
    elif k == "tri":
        A = np.triu(A)/n + np.diag(rng.choice([-1, 1], n)*rng.uniform(1, 2, n))
        A = A if rng.random() < 0.5 else A.T
    elif k == "graded":
        A = (A @ A.T + n*np.eye(n))*10.0**rng.uniform(-6, 6)
        s = 10.0**rng.uniform(-3, 3, n)
        A = A*s[:, None]*s[None, :]
    elif k == "int":
        A = np.round(A*3) + 5*n*np.eye(n)
    elif k == "diag":
        A = np.diag(rng.choice([-1, 1], n)*10.0**rng.uniform(-8, 8, n))
    elif k == "banded":
        A = np.triu(np.tril(A, 2), -2) + 6*np.eye(n)
    else:
        A = np.array([[rng.choice([-1, 1])*10.0**rng.uniform(-9, 9)]])
    if k not in ("int",):
        m = rng.random((n, n)) < gen.pick(rng, 0, 0, 0.3)
        np.fill_diagonal(m, False)
        if k in ("spd", "random", "indefinite") and m.any() and k != "indefinite":
            A = A.copy()
    return A, k


def backward(ctx, what, A, x, b):
    x = np.asarray(x)
    ctx.ok(x.shape == b.shape, what + ": solution has shape %s" % (x.shape,))
    ctx.ok(np.isfinite(x).all(), what + ": non-finite solution")
    r = A @ x - b
    bound = np.abs(A) @ np.abs(x) + np.abs(b)
    nrm = np.linalg.norm(A, 2)*np.linalg.norm(x) + np.linalg.norm(b)
    err = np.linalg.norm(r)/max(nrm, 1e-300)
    ctx.high("largest backward error", err)
    ctx.ok(err < 1e-11*max(4, len(b)), what + ": residual %.3g" % err)
    return bound


def csr(rng, A):
    k = rng.integers(4)
    if k == 0:
        return sps.csr_matrix(A)
    i, j = np.nonzero(A)
    v = A[i, j]*1.0
    p = rng.permutation(len(i))
    i, j, v = i[p], j[p], v[p]
    if k == 1:                                    # duplicates
        w = rng.uniform(0, 1, len(v))
        i, j, v = np.concatenate([i, i]), np.concatenate([j, j]), np.concatenate([v*w, v*(1 - w)])
    if k == 2:                                    # explicit zeros
        n = len(A)
        i, j, v = np.concatenate([i, np.arange(n)]), np.concatenate([j, np.arange(n)[::-1]]), \
            np.concatenate([v, np.zeros(n)])
    return sps.coo_matrix((v, (i, j)), shape=A.shape).tocsr()


def solve(ctx):
    rng = ctx.rng
    A, kind = system(rng)
    n = len(A)
    x0 = rng.normal(size=n)*10.0**rng.uniform(-6, 6)
    b = A @ x0
    if rng.random() < 0.3:
        b = rng.normal(size=n)*np.abs(A).max()
    if rng.random() < 0.1:
        b = np.zeros(n)
    Ad = gen.dress(rng, A, ints=(kind == "int"))
    bd = gen.dress(rng, b)
    if not bd.flags.contiguous:
        bd = b
    what = "static_sol (%s, n=%d)" % (kind, n)
    x = ctx.call(what + " dense", sol.static_sol, Ad, bd)
    backward(ctx, what + " dense", A, x, b)
    S = csr(rng, A)
    keep = S.copy()
    y = ctx.call(what + " sparse", sol.static_sol, S, bd)
    backward(ctx, what + " sparse", A, y, b)
    ctx.close(S.toarray(), keep.toarray(), what + ": matrix after solving", 0, 1)
    ctx.close(np.asarray(Ad, float), A, what + ": dense matrix after solving", 0, 1)
    cond = np.linalg.cond(A)
    if cond < 1e8:
        ctx.close(y, x, what + ": sparse and dense", 1e-13*cond*n + 1e-12, max(np.abs(x).max(), 1e-300))
        ctx.event("sparse/dense pairs agreed")
    if rng.random() < 0.2:
        i = np.round(b)
        ctx.call("static_sol integer rhs", sol.static_sol, A, i.astype(int) if np.abs(i).max() < 2**60 else i)
    ctx.key(kind, A)
    ctx.note(kind=kind, n=n, cond=cond)


def complex_(ctx):
    """complex systems (damped or Bloch-periodic problems), dense and sparse"""
    rng = ctx.rng
    n = int(gen.pick(rng, 1, 2, rng.integers(2, 40), rng.integers(40, 120)))
    A = rng.normal(size=(n, n)) + 1j*rng.normal(size=(n, n))
    k = gen.pick(rng, "hermitian", "general", "damped", "real matrix", "imaginary")
    if k == "hermitian":
        A = A @ A.conj().T + n*np.eye(n)
    elif k == "damped":
        A = (A @ A.conj().T).real + n*np.eye(n) + 1j*np.diag(rng.uniform(0.1, 1, n))
    elif k == "real matrix":
        A = (A.real + 3*n*np.eye(n))
    elif k == "imaginary":
        A = 1j*(A.real + 3*n*np.eye(n))
    else:
        A = A + 3*n*np.eye(n)
    A = A*10.0**rng.uniform(-9, 9)
    b = rng.normal(size=n) + 1j*rng.normal(size=n)*(k != "damped" or rng.random() < 0.5)
    if k != "real matrix" and rng.random() < 0.3:
        b = b.real
    what = "static_sol (complex %s, n=%d)" % (k, n)
    x = ctx.call(what + " dense", sol.static_sol, gen.dress(rng, A), b)
    backward(ctx, what + " dense", A, x, b)
    y = ctx.call(what + " sparse", sol.static_sol, sps.csr_matrix(A.astype(complex)), b.astype(complex))
    backward(ctx, what + " sparse", A, y, b)
    ctx.close(y, x, what + ": sparse and dense", 1e-9, np.abs(x).max())
    if k == "real matrix":                     # a real matrix with a complex right-hand side, as it is
        S = csr(rng, A)
        y = ctx.call(what + " sparse, matrix stored real", sol.static_sol, S, b)
        backward(ctx, what + " sparse, matrix stored real", A, y, b)
        x = ctx.call(what + " dense, matrix stored real", sol.static_sol, A, b)
        backward(ctx, what + " dense, matrix stored real", A, x, b)
    else:
        y = ctx.call(what + " sparse, other right-hand side", sol.static_sol, csr(rng, A), b.real.copy())
        backward(ctx, what + " sparse, other right-hand side", A, y, b.real)
    ctx.key(k, A)
    ctx.note(kind=k, n=n)


def sequence(ctx):
    """systems solved one after another that agree in everything but some entries"""
    rng = ctx.rng
    n = int(gen.pick(rng, 4, rng.integers(5, 30), rng.integers(30, 90)))
    P = rng.random((n, n)) < gen.pick(rng, 0.2, 0.5, 1.0)
    P = P | P.T | np.eye(n, dtype=bool) | (np.abs(np.subtract.outer(np.arange(n), np.arange(n))) == 1)
    W = np.where(P, rng.uniform(0.2, 1, (n, n)), 0)
    W = 0.5*(W + W.T)*rng.choice([-1, 1])
    A = W - np.diag(np.diag(W)) + np.diag(rng.uniform(1, 2, n)*n)
    b = rng.normal(size=n)
    inplace = rng.random() < 0.4
    D, S = np.array(A), csr(rng, A)
    S.sort_indices()
    if len(S.data) != P.sum():
        S = sps.csr_matrix(A)
    kinds = []
    for step in range(8):
        kind = gen.pick(rng, "one entry", "pair", "last", "permuted", "transposed", "conserving", "right-hand side", "back", "sign")
        kinds.append(kind)
        N = np.array(A)
        i, j = [int(v) for v in rng.integers(0, n, 2)]
        off = np.argwhere(P & ~np.eye(n, dtype=bool))
        i, j = [int(v) for v in off[rng.integers(len(off))]]
        if kind == "one entry":
            N[i, j] *= 1.5
        elif kind == "pair":                   # symmetric, diagonal kept
            N[i, j] *= 0.5
            N[j, i] = N[i, j]
        elif kind == "last":                   # beyond the first rows
            i = n - 1
            j = int(np.flatnonzero(P[i] & (np.arange(n) != i))[-1])
            N[i, j] *= 1 + 10.0**rng.uniform(-6, 0)
        elif kind == "permuted":               # the same numbers elsewhere
            o = off[off[:, 0] < off[:, 1]]
            v = N[o[:, 0], o[:, 1]][rng.permutation(len(o))]
            N[o[:, 0], o[:, 1]] = v
            N[o[:, 1], o[:, 0]] = v
        elif kind == "transposed":
            N = N.T.copy()
        elif kind == "conserving":             # sums of all entries and of the diagonal kept
            d = rng.permutation(n)
            N[np.arange(n), np.arange(n)] = np.diag(N)[d]
        elif kind == "sign":                   # same absolute values, still diagonally dominant
            N[i, j] = -N[i, j]
            N[j, i] = -N[j, i]
        elif kind == "right-hand side":
            b = b[rng.permutation(n)]
        else:
            N = A
        if inplace:                            # same matrix objects, other contents
            D[...] = N
            S.data[:] = sps.csr_matrix(np.where(P, N, 0) + 0.0).data if (N[P] != 0).all() else S.data
            x = ctx.call("static_sol dense, step %d" % step, sol.static_sol, D, b)
            y = ctx.call("static_sol sparse, step %d" % step, sol.static_sol, S, b)
        else:
            x = ctx.call("static_sol dense, step %d" % step, sol.static_sol, np.array(N), np.array(b))
            y = ctx.call("static_sol sparse, step %d" % step, sol.static_sol, sps.csr_matrix(N), np.array(b))
        backward(ctx, "static_sol dense after other systems (%s)" % kind, N, x, b)
        backward(ctx, "static_sol sparse after other systems (%s)" % kind, N, y, b)
        A = N
    ctx.key("sequence", kinds, A, b)
    ctx.note(n=n, steps=kinds, inplace=inplace)


def stiff(ctx):
    """well-posed systems whose entries span many decades: parts so soft that they must not be cut off"""
    rng = ctx.rng
    n = int(gen.pick(rng, 2, 3, rng.integers(4, 30)))
    kind = gen.pick(rng, "blocks", "scaled", "chain", "penalty")
    s = 10.0**rng.uniform(-12, 12, n)
    if kind == "blocks":                       # independent parts
        A = np.diag(s)
        m = n//2*2
        for i in range(0, m - 1, 2):
            A[i:i + 2, i:i + 2] = s[i]*np.array([[2, -1], [-1, 2.0]])
    elif kind == "scaled":                     # rows in different units
        A = (rng.normal(size=(n, n)) + 3*np.sqrt(n)*np.eye(n))*s[:, None]
    elif kind == "chain":                      # springs in series
        k = 10.0**rng.uniform(-7, 7, n)
        A = np.diag(k + np.append(k[1:], 0)) - np.diag(k[1:], 1) - np.diag(k[1:], -1)
    else:                                      # supports held by very stiff springs
        A = np.diag(np.full(n, 2.0)) - np.diag(np.ones(n - 1), 1) - np.diag(np.ones(n - 1), -1)
        A[0, 0] += 10.0**rng.uniform(8, 18)
    x0 = rng.normal(size=n)
    if kind in ("blocks", "scaled"):
        b = A @ x0 if kind == "scaled" else s*rng.normal(size=n)
    elif kind == "chain":
        b = np.full(n, 0.0)
        b[-1] = 1.0
    else:
        b = rng.normal(size=n)
    for what, M in (("dense", np.array(A)), ("sparse", sps.csr_matrix(A))):
        x = np.asarray(ctx.call("static_sol %s (%s)" % (what, kind), sol.static_sol, M, b))
        ctx.ok(x.shape == b.shape and np.isfinite(x).all(), "static_sol %s (%s): shape or value" % (what, kind))
        if kind == "chain":                    # (componentwise: every spring carries the end load)
            want = np.cumsum(1.0/k)
        elif kind == "blocks":
            want = np.array(b)/s
            for i in range(0, m - 1, 2):
                want[i:i + 2] = np.linalg.solve(np.array([[2, -1], [-1, 2.0]]), b[i:i + 2]/s[i])
        else:
            want = None
        if want is not None and kind == "blocks":
            ctx.close(x/np.abs(want).max(), want/np.abs(want).max(), "static_sol %s (%s)" % (what, kind), 1e-9)
            ctx.close(x/want, np.ones(n), "static_sol %s (%s), each part" % (what, kind), 1e-9)
        r = np.abs(A @ x - b)/(np.abs(A) @ np.abs(x) + np.abs(b))      # row by row
        bound = 1e-9 if kind != "chain" else 1e-6
        ctx.high("largest backward error of a row", r.max())
        ctx.ok(r.max() < bound, "static_sol %s (%s): residual %.3g of a row" % (what, kind, r.max()))
    ctx.key(kind, A)
    ctx.note(kind=kind, n=n, decades=float(np.log10(np.abs(np.diag(A)).max()/np.abs(np.diag(A)).min())))


def models(ctx):
    rng = ctx.rng
    name = ["tri3", "quad4", "tri6", "quad9"][ctx.index % 4]
    big = ctx.index % 10 == 9
    xy, conn = gen.mesh2d(rng, name, (30, 30) if big and name in ("tri3", "quad4") else None)
    mats = gen.materials(rng)
    c = gen.clamp(rng, xy)
    nodes, elements = gen.tables(rng, xy, conn, ref.TYPE_ID[name], rng.integers(0, len(mats), len(conn)))
    op, bc, neq = ctx.call("DME", ass.DME, c, elements)
    if not neq:
        return
    k, _ = ctx.call("assembler", ass.assembler, elements, mats, nodes, neq, op)
    f = ctx.call("loadasem", ass.loadasem, gen.loads(rng, len(xy)), bc, neq)
    x = ctx.call("static_sol sparse", sol.static_sol, k, f)
    r = k @ x - f
    # (row-wise scaled residual: units may differ by many decades)
    s = np.abs(k) @ np.abs(x) + np.abs(f)
    err = np.abs(r).max()/max(s.max(), 1e-300)
    ctx.ok(np.isfinite(x).all() and err < 1e-10, "static_sol on a %s model: residual %.3g" % (name, err))
    if not big:
        y = ctx.call("static_sol dense", sol.static_sol, k.toarray(), f)
        cond = np.linalg.cond(k.toarray())
        if cond < 1e9:
            ctx.close(y, x, "dense and sparse solution of a %s model" % name, 1e-13*cond*len(f) + 1e-11)
    ctx.key(name, xy, mats)
    ctx.note(family=name, neq=neq)


def large(ctx):
    """systems of thousands of equations, banded, arrow-shaped or with far couplings"""
    rng = ctx.rng
    n = int(gen.pick(rng, 1100, 2500, 5200, 10500, 21000, 34000, 67000)) + int(rng.integers(0, 50))
    kind = gen.pick(rng, "chain", "grid", "arrow", "nonsymmetric", "far", "nearly")
    if kind == "chain":
        S = sps.diags([np.full(n - 1, -1.0), np.full(n, 2.0), np.full(n - 1, -1.0)], [-1, 0, 1])
    elif kind == "grid":
        m = int(np.sqrt(min(n, 21100)))
        T = sps.diags([np.full(m - 1, -1.0), np.full(m, 2.0), np.full(m - 1, -1.0)], [-1, 0, 1])
        S = sps.kron(T, sps.eye(m)) + sps.kron(sps.eye(m), T)
    elif kind == "arrow":
        v = rng.normal(size=n - 1)*0.5/np.sqrt(n)
        S = sps.lil_matrix(sps.diags(rng.uniform(2, 3, n)))
        S[-1, :-1] = v
        S[:-1, -1] = v[:, None]
    elif kind == "nearly":
        w = 10.0**rng.uniform(-9, -1)
        S = sps.diags([np.full(n - 1, -1.0 - w), np.full(n, 2.1), np.full(n - 1, -1.0 + w)], [-1, 0, 1])
    elif kind == "nonsymmetric":
        S = sps.diags([rng.normal(size=n - 1), 4 + rng.uniform(0, 1, n), rng.normal(size=n - 1)], [-1, 0, 1])
    else:
        i, j = rng.integers(0, n, (2, 60))
        S = sps.coo_matrix((rng.normal(size=60)*0.05, (i, j)), shape=(n, n)) + sps.diags(rng.uniform(1, 2, n))
    S = sps.csr_matrix(S)*10.0**rng.uniform(-6, 10)
    b = rng.normal(size=S.shape[0])
    if rng.random() < 0.3:
        b[:-1] = 0
    keep = S.copy()
    what = "static_sol (%s, sparse, n=%d)" % (kind, S.shape[0])
    x = np.asarray(ctx.call(what, sol.static_sol, S, b))
    nrm = abs(S).sum(axis=1).max()
    ctx.ok(x.shape == b.shape and np.isfinite(x).all(), what + ": shape or value")
    err = np.abs(S @ x - b).max()/max(nrm*np.abs(x).max() + np.abs(b).max(), 1e-300)
    ctx.high("largest backward error", err)
    ctx.ok(err < 1e-12, what + ": residual %.3g" % err)
    ctx.ok(abs(S - keep).max() == 0, what + ": matrix after solving")
    if S.shape[0] < 1300:
        D = S.toarray()
        y = np.asarray(ctx.call(what + " dense", sol.static_sol, D, b))
        err = np.abs(S @ y - b).max()/max(nrm*np.abs(y).max() + np.abs(b).max(), 1e-300)
        ctx.ok(err < 1e-12, what + " as dense: residual %.3g" % err)
    ctx.key(kind, b, S.data[:50])
    ctx.note(kind=kind, n=S.shape[0])


def refused(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 8))
    A = np.eye(n)*2 + rng.uniform(0, 0.1, (n, n))
    b = rng.normal(size=n)
    for bad in (A.tolist(), tuple(map(tuple, A)), None, 3.0, "matrix", sps.coo_matrix(A), sps.lil_matrix(A),
                sps.dok_matrix(A)):
        ctx.raises(TypeError, "static_sol(%s)" % type(bad).__name__, sol.static_sol, bad, b)
        ctx.key("bad", type(bad).__name__)
    ctx.ok(True, "")


FAMILIES = [Family(solve, 1200, 30000), Family(complex_, 150, 4000), Family(sequence, 120, 3000), Family(stiff, 200, 5000), Family(models, 60, 1200), Family(large, 16, 300), Family(refused, 4, 20)]
