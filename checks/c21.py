"""C21 principal values and directions."""
import numpy as np
import solidspy.postprocesor as pos
from vlib.core import Family
from vlib import gen

RULE = ("a case is one symmetric tensor (any magnitude 1e-150..1e150, near diagonal, near isotropic, pure "
        "shear, singular, integer) or a field of them; oracle: eigenvalue equations, orthonormality, "
        "reconstruction, ordering, LAPACK values, independence of rows; distinct = tensor content")
ASSUMPTIONS = ["tensors whose shear is below 1e-6 of the largest component are documented as diagonal: "
               "2e-6 relative there, 1e-8 elsewhere"]


def tensor(rng):
    k = gen.pick(rng, "random", "random", "neardiag", "neariso", "shear", "singular", "int", "zero", "single",
                 "boundary", "rotated", "bigratio")
    if k == "random":
        A = rng.normal(size=(2, 2))
        A = A + A.T
    elif k == "neardiag":
        A = np.diag(rng.normal(size=2))
        A[0, 1] = A[1, 0] = rng.choice([-1, 1])*10**rng.uniform(-16, -3)
    elif k == "neariso":
        A = np.eye(2)*rng.choice([-1, 1]) + np.diag(rng.normal(size=2))*10**rng.uniform(-16, -2)
        A[0, 1] = A[1, 0] = rng.normal()*10**rng.uniform(-16, -2)
    elif k == "shear":
        A = np.array([[0, 1], [1, 0.0]])*rng.normal()
    elif k == "singular":
        v = rng.normal(size=2)
        A = np.outer(v, v)*rng.choice([-1, 1])
    elif k == "int":
        A = rng.integers(-9, 10, (2, 2))
        A = A + A.T
    elif k == "zero":
        A = np.zeros((2, 2))
    elif k == "single":
        A = np.zeros((2, 2))
        i = int(rng.integers(3))
        if i < 2:
            A[i, i] = rng.normal()
        else:
            A[0, 1] = A[1, 0] = rng.normal()
    elif k == "boundary":                     # around the tolerance
        A = np.diag(rng.uniform(0.5, 1, 2))
        A[0, 1] = A[1, 0] = 1e-6*rng.uniform(0.3, 3)
    elif k == "bigratio":
        A = np.diag([1.0, 10**rng.uniform(-14, -1)])[::gen.pick(rng, 1, -1), ::1]
        A = np.diag(np.sort(np.abs(A).max(axis=0))[::gen.pick(rng, 1, -1)])
        A[0, 1] = A[1, 0] = rng.normal()*10**rng.uniform(-6, -1)
    else:
        R = gen.rot(rng, 2)
        A = R @ np.diag(rng.normal(size=2)) @ R.T
        A = 0.5*(A + A.T)
    if k != "int":
        A = A*gen.pick(rng, 1.0, gen.log_uniform(rng, 1e-150, 1e150), gen.log_uniform(rng, 1e-9, 1e12))
    return A, k


def judge(ctx, A, e1, e2, v1, v2, what):
    A = np.asarray(A, float)
    s = np.abs(A).max()
    ctx.ok(np.ndim(e1) == 0 and np.ndim(e2) == 0, what + ": principal values are not scalars")
    if s == 0:
        ctx.ok(e1 == 0 and e2 == 0, what + ": zero tensor gives %s, %s" % (e1, e2))
        ctx.event("zero tensors")
        return
    A = A/s
    e1, e2 = float(e1)/s, float(e2)/s
    v1, v2 = np.asarray(v1, float), np.asarray(v2, float)
    tol = 2e-6 if abs(A[0, 1]) < 1.0001e-6 else 1e-8
    w = np.linalg.eigvalsh(A)
    ctx.ok(np.isfinite([e1, e2]).all() and v1.shape == (2,) and v2.shape == (2,), what + ": values", e1=e1, e2=e2)
    ctx.close(np.sort([e1, e2]), w, what + ": principal values", tol, 1.0)
    ctx.ok(abs(e1) >= abs(e2)*(1 - 1e-12) - tol*0, what + ": not ordered by magnitude", e1=e1, e2=e2)
    for e, v in ((e1, v1), (e2, v2)):
        ctx.close(np.array(np.hypot(*v)), np.array(1.0), what + ": direction is not a unit vector", 1e-12, 1.0)
        ctx.close(A @ v, e*v, what + ": eigenvalue equation", tol, 1.0)
    ctx.close(np.array(v1 @ v2), np.array(0.0), what + ": directions are not orthogonal", 1e-12, 1.0)
    ctx.close(e1*np.outer(v1, v1) + e2*np.outer(v2, v2), A, what + ": reconstruction", tol, 1.0)


def single(ctx):
    rng = ctx.rng
    for _ in range(10):
        A, k = tensor(rng)
        B = gen.dress(rng, A)
        out = ctx.call("eigvals", pos.eigvals, B)
        judge(ctx, A, *out, "eigvals(%s tensor %s)" % (k, A.tolist()))
        # invariants under a change of axes
        Q = np.array([[0, 1], [1, 0.0]])
        sw = ctx.call("eigvals", pos.eigvals, Q @ np.asarray(A, float) @ Q)
        judge(ctx, Q @ np.asarray(A, float) @ Q, *sw, "eigvals with the axes exchanged")
        s = np.abs(A).max() or 1.0
        ctx.close(np.array(sw[:2], float)/s, np.array(out[:2], float)/s if
                  abs(abs(out[0]) - abs(out[1])) > 4e-6*s else np.array(sw[:2], float)/s,
                  "principal values with the axes exchanged", 4e-6, 1.0)
        ctx.event("tensors of kind " + k)
        ctx.key(np.asarray(A, float))
    ctx.note(kind=k, tensor=A)


def tolerance(ctx):
    """the tolerance for taking a tensor as diagonal is the caller's"""
    rng = ctx.rng
    for _ in range(10):
        tol = gen.pick(rng, 10**rng.uniform(-14, -1.5), 10**rng.uniform(-14, -1.5), 10**rng.uniform(-7, -1.5), 0.0)
        A = np.diag(rng.uniform(0.3, 1, 2)*rng.choice([-1, 1], 2))
        A[0, 1] = A[1, 0] = rng.choice([-1, 1])*(tol or 1e-9)*10**gen.pick(
            rng, rng.uniform(0.1, 1), rng.uniform(0.1, 4), rng.uniform(-1, -0.1), -np.inf)
        if rng.random() < 0.5:                # nearly isotropic: the shear decides the directions
            A[1, 1] = A[0, 0] + A[0, 1]*rng.normal()
        A = A*gen.log_uniform(rng, 1e-6, 1e9)
        ratio = abs(A[0, 1])/np.abs(A).max()
        e1, e2, v1, v2 = ctx.call("eigvals", pos.eigvals, A, **{"tol": tol}) if rng.random() < 0.5 else \
            ctx.call("eigvals", pos.eigvals, A, tol)
        diag = sorted([float(e1), float(e2)]) == sorted([float(A[0, 0]), float(A[1, 1])])
        what = "eigvals(%s, tol=%.3g), shear/largest=%.3g" % (A.tolist(), tol, ratio)
        s = np.abs(A).max()
        w = np.linalg.eigvalsh(A)
        slack = 1e-12 + 1.1*tol               # what the caller's tolerance leaves open
        if ratio > tol:
            slack = 1e-12 + min(1.1*tol, 2e-14/ratio)
        ctx.close(np.sort([e1, e2])/s, w/s, what + ": principal values", slack, 1.0)
        for e, v in ((e1, v1), (e2, v2)):
            ctx.close(A @ v/s, e/s*np.asarray(v), what + ": eigenvalue equation", slack, 1.0)
        ctx.ok(ratio >= tol*(1 - 1e-9) or diag, what + ": not taken as diagonal")
        ctx.close(np.array([v1 @ v1, v2 @ v2, v1 @ v2]), np.array([1.0, 1.0, 0.0]), what + ": directions", 1e-12, 1.0)
        ctx.ok(abs(e1) >= abs(e2)*(1 - 1e-12), what + ": not ordered by magnitude")
        ctx.key(A, tol)
    ctx.note(tol=tol, tensor=A)


def field(ctx):
    rng = ctx.rng
    n = int(gen.pick(rng, 1, 2, rng.integers(1, 40), 200))
    ten = [tensor(rng)[0] for _ in range(n)]
    if rng.random() < 0.3:                    # one magnitude, as a stress field
        ten = [t/(np.abs(t).max() or 1) for t in ten]
    F = np.array([[t[0, 0], t[1, 1], t[0, 1]] for t in ten], float)
    if rng.random() < 0.2:
        F = np.round(F/(np.abs(F).max() or 1)*50).astype(float)
    D = gen.dress(rng, F)
    e1, e2, v1, v2 = (np.asarray(a) for a in ctx.call("principal_dirs", pos.principal_dirs, D))
    ctx.ok(e1.shape == e2.shape == (n,) and v1.shape == v2.shape == (n, 2), "principal_dirs: shapes")
    for i in range(n):
        A = np.array([[F[i, 0], F[i, 2]], [F[i, 2], F[i, 1]]])
        judge(ctx, A, e1[i], e2[i], v1[i], v2[i], "principal_dirs row %d of %d %s" % (i, n, F[i]))
        one = ctx.call("eigvals", pos.eigvals, A)
        s = np.abs(A).max() or 1.0
        ctx.close(np.array([e1[i], e2[i]])/s, np.array(one[:2], float)/s, "field row vs single tensor", 1e-12, 1.0)
    p = rng.permutation(n)
    again = [np.asarray(a) for a in ctx.call("principal_dirs", pos.principal_dirs, F[p])]
    for a, b, nm in zip(again, (e1, e2, v1, v2), ("first", "second", "directions 1", "directions 2")):
        ctx.ok(np.array_equal(a, b[p], equal_nan=True) or np.allclose(a, b[p], rtol=1e-12, atol=0, equal_nan=True),
               "principal_dirs: %s depend on the other rows" % nm)
    ctx.event("rows", n)
    ctx.key(F)
    ctx.note(rows=n)


def long_field(ctx):
    """a field of more rows than 16-bit numbers count"""
    rng = ctx.rng
    n = int(rng.integers(33000, 72000))
    F = rng.normal(size=(n, 3))
    if rng.random() < 0.5:                    # pieces of other kinds
        F[rng.random(n) < 0.1, 2] = 0
        F[rng.random(n) < 0.1, 2] *= 1e-4
        iso = rng.random(n) < 0.1
        F[iso, 1] = F[iso, 0]
    F *= gen.log_uniform(rng, 1e-9, 1e12)
    s = np.abs(F).max()
    e1, e2, v1, v2 = (np.asarray(a) for a in ctx.call("principal_dirs", pos.principal_dirs, gen.dress(rng, F)))
    ctx.ok(e1.shape == e2.shape == (n,) and v1.shape == v2.shape == (n, 2), "principal_dirs of %d rows: shapes" % n)
    A = F[:, [0, 2, 2, 1]].reshape(n, 2, 2)/s
    what = "principal_dirs of %d rows: " % n
    ctx.close(np.sort(np.column_stack([e1, e2])/s, axis=1), np.linalg.eigvalsh(A), what + "principal values", 2e-6, 1.0)
    ctx.ok(np.all(np.abs(e1) >= np.abs(e2)*(1 - 1e-12)), what + "not ordered by magnitude")
    for e, v in ((e1, v1), (e2, v2)):
        ctx.close(np.einsum("nij,nj->ni", A, v), (e/s)[:, None]*v, what + "eigenvalue equation", 2e-6, 1.0)
        ctx.close((v**2).sum(axis=1), np.ones(n), what + "lengths of the directions", 1e-12, 1.0)
    ctx.close((v1*v2).sum(axis=1), np.zeros(n), what + "directions are not orthogonal", 1e-12, 1.0)
    ctx.event("rows", n)
    ctx.high("rows in one field", n)
    ctx.key(F)
    ctx.note(rows=n)


FAMILIES = [Family(long_field, 3, 40), Family(single, 500, 10000), Family(tolerance, 60, 1500), Family(field, 100, 2000)]
