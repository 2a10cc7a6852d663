"""C03 strain-displacement kinematics."""
import numpy as np
import solidspy.femutil as fem
from vlib.core import Family
from vlib import gen, ref
from checks.c02 import SHAPE

RULE = ("a case is an admissible element geometry (affine, distorted, curved, integer; scales 1e-6..1e6; "
        "offsets up to 1000 sizes) with several evaluation points and displacement fields; oracle = chain "
        "rule on the independent interpolation basis; distinct = (family, geometry)")
ASSUMPTIONS = ["strain component order xx yy xy (rz, then hoop) in 2D, xx yy zz yz xz xy in 3D, engineering shear"]

N2 = ["tri3", "tri6", "quad4", "quad8", "quad9"]
N3 = ["tet4", "hex8"]


def point(rng, name, coord=None):
    """a point of the element; with its coordinates, at times one outside"""
    e = ref.ELEMS[name]
    if e["dom"] == "box":
        p = rng.uniform(-1, 1, e["dim"])
    else:
        p = rng.dirichlet(np.ones(e["dim"] + 1))[1:]
    if rng.random() < 0.15:
        p = np.array(e["nodes"][rng.integers(len(e["nodes"]))], float)
    elif coord is not None and rng.random() < 0.15:
        q = p*rng.uniform(1.0, 1.6) if rng.random() < 0.7 else np.array([1.0, -1.0, 2.0][rng.integers(3)]*p)
        J = ref.basis(name, q)[1] @ np.asarray(coord, float)
        d, _, hi = np.linalg.det(J), 0, ref.min_det(name, np.asarray(coord, float))[2]
        if d > 0.1*hi:
            p = q
    return p


def inspect(ctx, name, coord, p, H, B, det, axi=False, cond=1.0):
    rng = ctx.rng
    dim = ref.ELEMS[name]["dim"]
    n = len(coord)
    c = np.asarray(coord, float)
    N, dNr = ref.basis(name, p)
    # cancellation from far-away coordinates
    L = np.ptp(c, axis=0).max()
    amp = cond*(1 + np.abs(c).max()/L)
    tol = 1e-12*amp*30
    J = dNr @ (c - c.mean(axis=0))
    dNx = np.linalg.solve(J, dNr)
    rad = N @ c[:, 0] if axi else None
    Br = ref.bmat(dNx, N, rad) if axi else ref.bmat(dNx)
    label = "%s%s at %s" % (name, " (axisymmetric)" if axi else "", p)
    ctx.close(det, np.linalg.det(J), "determinant of " + label, tol, np.linalg.norm(J)**dim)
    ctx.close(H, ref.hmat(N, dim), "interpolation matrix of " + label, 1e-11)
    ctx.close(B, Br, "strain matrix of " + label, tol)
    B, H = np.asarray(B), np.asarray(H)
    # rigid motions
    R = ref.rigid_modes(c, axi)
    ctx.close(B @ R, np.zeros((B.shape[0], R.shape[1])), "strain of rigid motions, " + label, tol*n,
              np.abs(B).max())
    # linear field u = u0 + G x
    G = rng.normal(size=(dim, dim))/L
    u0 = rng.normal(size=dim)
    if axi:
        G = np.diag([G[0, 0], G[1, 1]]) + np.array([[0, 0], [G[1, 0], 0]])
        u0[0] = 0.0
        u = np.column_stack([c[:, 0]*G[0, 0], u0[1] + c @ G[1]])
        # hoop strain u/r equals G00 when the geometry reproduces r, i.e. always
        want = np.array([G[0, 0], G[1, 1], G[1, 0], G[0, 0]])
    else:
        u = u0 + c @ G.T
        E = 0.5*(G + G.T)
        want = np.array([E[0, 0], E[1, 1], 2*E[0, 1]]) if dim == 2 else \
            np.array([E[0, 0], E[1, 1], E[2, 2], 2*E[1, 2], 2*E[0, 2], 2*E[0, 1]])
    uu = u.ravel()
    ctx.close(B @ uu, want, "strain of a linear field, " + label, tol*n, np.abs(B).max()*np.abs(uu).max())
    xp = N @ c
    upt = u0 + G @ xp
    ctx.close(H @ uu, upt, "displacement of a linear field, " + label, tol*n, np.abs(uu).max())
    ctx.event("strain matrices judged")


def plane(ctx):
    rng = ctx.rng
    name = N2[ctx.index % len(N2)]
    coord, mode = gen.coords(rng, name)
    c = gen.dress(rng, coord)
    for _ in range(3):
        p = point(rng, name, coord)
        H, B, det = ctx.call("elast_diff_2d", fem.elast_diff_2d, p[0], p[1], c, SHAPE[name])
        inspect(ctx, name, coord, p, H, B, det)
    ctx.key(name, np.asarray(coord, float))
    ctx.note(family=name, mode=mode, coord=coord)


def solid(ctx):
    rng = ctx.rng
    name = N3[ctx.index % len(N3)]
    coord, mode = gen.coords(rng, name)
    c = gen.dress(rng, coord)
    for k in range(3):
        p = point(rng, name, coord)
        if name == "hex8" and k == 0:
            H, B, det = ctx.call("elast_diff_3d", fem.elast_diff_3d, p[0], p[1], p[2], c)
        else:
            H, B, det = ctx.call("elast_diff_3d", fem.elast_diff_3d, p[0], p[1], p[2], c, SHAPE[name])
        inspect(ctx, name, coord, p, H, B, det)
    ctx.key(name, np.asarray(coord, float))
    ctx.note(family=name, mode=mode, coord=coord)


def axisymmetric(ctx):
    rng = ctx.rng
    name = ["quad9", "quad4", "quad8", "tri3", "tri6"][ctx.index % 5]
    coord, mode = gen.coords(rng, name, offset=False)
    coord = coord.copy()
    gap = gen.pick(rng, 0.05, 0.5, 5.0)
    touch = rng.random() < 0.15
    coord = coord - [coord[:, 0].min(), 0]
    if touch:
        gap = 0
    elif mode == "integer":
        coord = coord + [1, 0]
    else:
        coord = coord + [gap*np.ptp(coord[:, 0]), 0]
    c = gen.dress(rng, coord)
    for _ in range(3):
        p = point(rng, name)
        if touch and ref.basis(name, p)[0] @ coord[:, 0] < 0.03*np.ptp(coord[:, 0]):
            continue
        H, B, det = ctx.call("elast_diff_axi", fem.elast_diff_axi, p[0], p[1], c, SHAPE[name])
        inspect(ctx, name, coord, p, H, B, det, axi=True)
    # on the wrong side of the axis
    p = point(rng, name)
    xp = ref.basis(name, p)[0] @ coord[:, 0]
    L = np.ptp(coord[:, 0])
    k = rng.integers(3) if xp > 0.01*L else 1
    depth = gen.pick(rng, 1e-9, 1e-6, 1e-3, 0.1, 3.0)*L
    bad = coord*np.array([-1, -1]) if k == 0 else coord - [xp + depth, 0]
    if k == 2:
        # the point is just inside the half plane, then just outside it
        good = coord - [xp - depth, 0]
        ctx.call("elast_diff_axi at radius %.3g" % depth, fem.elast_diff_axi, p[0], p[1], good, SHAPE[name])
    ctx.raises(ValueError, "elast_diff_axi at the negative radius of %s" % bad.tolist(), fem.elast_diff_axi,
               p[0], p[1], bad, SHAPE[name])
    ctx.key("axi", name, np.asarray(coord, float))
    ctx.note(family=name, mode=mode, coord=coord)


def slender(ctx):
    """elements up to a million times longer than wide (needles in space: a thousand)"""
    rng = ctx.rng
    name = (N2 + N3)[ctx.index % len(N2 + N3)]
    e = ref.ELEMS[name]
    dim = e["dim"]
    X = np.array(e["nodes"], float)
    S = np.ones(dim)
    a = 10.0**rng.uniform(1, 5.8)
    S[rng.integers(dim)] = 1/a
    if dim == 3 and rng.random() < 0.4:
        a = 10.0**rng.uniform(1, 2.9)
        S[:] = 1/a
        S[rng.integers(dim)] = 1
    turned = rng.random() < 0.6
    coord = ((X - X.mean(axis=0))*S @ (gen.rot(rng, dim).T if turned else np.eye(dim)))*gen.scale(rng)
    p = point(rng, name)
    fn = fem.elast_diff_2d if dim == 2 else fem.elast_diff_3d
    H, B, det = ctx.call("%s of a slender %s" % (fn.__name__, name), fn, *p, gen.dress(rng, coord), SHAPE[name])
    inspect(ctx, name, coord, p, H, B, det, cond=a)
    J = ref.basis(name, p)[1] @ coord
    ctx.close(det, np.linalg.det(J), "determinant of a slender %s" % name, 1e-12 + 1e-13*a)
    ctx.event("slender elements")
    ctx.key(name, coord)
    ctx.note(family=name, aspect=a, turned=turned)


def user_shape(ctx):
    """a shape function supplied by the user: 10-node triangle, 12-node prism-like box"""
    rng = ctx.rng
    import itertools
    if ctx.index % 2 == 0:
        ex = [e for e in itertools.product(range(4), repeat=2) if sum(e) <= 3]
        X = np.array([(i/3, j/3) for i, j in ex])
        dim = 2
    else:
        ex = list(itertools.product(range(3), range(2), range(2)))
        X = np.array([(i - 1.0, 2*j - 1.0, 2*k - 1.0) for i, j, k in ex])
        dim = 3
    W = np.linalg.inv(np.array([ref.monomials(ex, x)[0] for x in X]))

    def shape(*pt):
        v, g = ref.monomials(ex, pt)
        return v @ W, g @ W
    A = gen.affine(rng, dim)*gen.scale(rng)
    coord = X @ A.T
    p = rng.dirichlet(np.ones(dim + 1))[1:]
    if dim == 2:
        H, B, det = ctx.call("elast_diff_2d", fem.elast_diff_2d, p[0], p[1], coord, shape)
    else:
        H, B, det = ctx.call("elast_diff_3d", fem.elast_diff_3d, *p, coord, interp=shape)
    N, dN = shape(*p)
    J = dN @ coord
    ctx.close(det, np.linalg.det(J), "determinant for a user shape function", 1e-11)
    ctx.close(H, ref.hmat(N, dim), "H for a user shape function", 1e-12)
    ctx.close(B, ref.bmat(np.linalg.solve(J, dN)), "B for a user shape function", 1e-11)
    ctx.key("user", dim, A)
    ctx.note(dim=dim, nodes=len(X))


def jacobian(ctx):
    """determinant and inverse for any interpolation derivatives"""
    rng = ctx.rng
    name = gen.pick(rng, *(N2 + N3))
    coord, mode = gen.coords(rng, name)
    p = point(rng, name)
    _, dN = ref.basis(name, p)
    det, inv = ctx.call("jacoper", fem.jacoper, dN, gen.dress(rng, coord))
    c = np.asarray(coord, float)
    J = dN @ (c - c.mean(axis=0))
    amp = 1 + np.abs(c).max()/np.ptp(c, axis=0).max()
    ctx.close(det, np.linalg.det(J), "Jacobian determinant of " + name, 1e-11*amp, np.linalg.norm(J)**len(J))
    ctx.close(np.asarray(inv) @ J, np.eye(len(J)), "Jacobian inverse of " + name, 1e-10*amp, 10)
    ctx.key("jac", name, c, p)
    ctx.note(family=name, mode=mode, point=p)


FAMILIES = [Family(plane, 400, 15000), Family(solid, 200, 8000), Family(axisymmetric, 200, 8000),
            Family(slender, 120, 4000),
            Family(user_shape, 40, 1000), Family(jacobian, 200, 5000)]
