"""C07 element stiffness equals the weak form."""
import numpy as np
from vlib.core import Family
from vlib import gen, ref
from checks.c04 import UEL, ALL, base, make

RULE = ("a case is an admissible element and material whose returned stiffness is compared, entry by "
        "entry, with an independent integration of the energy (own basis, own quadrature, own Hooke law); "
        "distinct = (family, coordinates, material)")
ASSUMPTIONS = ["non-affine geometries: the element's full Gauss rule, or any finer one, is the reference"]


def par(rng, E, nu, rho, name):
    if rng.random() < 0.1:
        rho = 0.0
    vals = [E, nu, rho]
    if name in ("tri3", "tri6", "quad4", "quad9") and rng.random() < 0.4:
        vals = vals[:2]
    return gen.container(rng, vals)


def matches(ctx, what, name, got, cf, E, nu, rho, tol, which):
    """equal to the reference with the full rule, or with a finer one"""
    b = base(name)
    axi = name == "axi"
    want = ref.element(b, cf, E, nu, rho, axi)[which]
    got = np.asarray(got, float)
    ctx.ok(got.shape == want.shape, what + " has shape %s" % (got.shape,))
    s = np.abs(want).max()
    err = np.abs(got - want).max()/s
    if not err <= tol:
        for n in range(2, 9):
            if ref.ELEMS[b]["dom"] == "box" and n < ref.FULL_RULE[b]:
                continue
            if ref.ELEMS[b]["dom"] == "tri" and n < 4:
                continue
            alt = ref.element(b, cf, E, nu, rho, axi, ref.rule(b, n))[which]
            if np.abs(got - alt).max()/s <= tol:
                ctx.event("matched a finer rule")
                return
    ctx.close(got, want, what, tol)


def affine(ctx):
    """affine maps: exact integral"""
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    c, mode = make(rng, name, gen.pick(rng, "affine", "affine", "integer"))
    cf = np.asarray(c, float)
    E, nu, rho = gen.young(rng), gen.poisson(rng, True), gen.density(rng)
    amp = 1 + np.abs(cf).max()/np.ptp(cf, axis=0).max()
    tol = (3e-12*amp + 2e-11)*(1 + 0.01/(0.5 - nu)/(1 + nu))
    K, _ = ctx.call(name, UEL[name], gen.dress(rng, c), par(rng, E, nu, rho, name))
    what = "stiffness of %s (%s, E=%g, nu=%g)" % (name, mode, E, nu)
    if name == "axi" or mode == "integer":
        matches(ctx, what, name, K, cf, E, nu, rho, tol, 0)
    else:
        want = ref.element(base(name), cf, E, nu, rho, False, ref.rule(base(name)))[0]
        ctx.close(K, want, what + " against the exact integral", tol)
    ctx.key(name, cf, E, nu)
    ctx.note(family=name, mode=mode, E=E, nu=nu, coord=c)


def general(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    c, mode = make(rng, name, gen.pick(rng, "distorted", "curved"))
    cf = np.asarray(c, float)
    E, nu, rho = gen.young(rng), gen.poisson(rng), gen.density(rng)
    amp = 1 + np.abs(cf).max()/np.ptp(cf, axis=0).max()
    tol = 3e-12*amp + 2e-11
    K, _ = ctx.call(name, UEL[name], gen.dress(rng, c), par(rng, E, nu, rho, name))
    K = np.asarray(K)
    matches(ctx, "stiffness of %s (%s, E=%g, nu=%g)" % (name, mode, E, nu), name, K, cf, E, nu, rho, tol, 0)
    # consistent forces of a uniform stress state, exact on every geometry
    dim = cf.shape[1]
    G = rng.normal(size=(dim, dim))
    if name == "axi":
        a, b, g = rng.normal(size=3)
        u = np.column_stack([a*cf[:, 0], b*cf[:, 1] + 0.3])
        eps = np.array([a, b, 0.0, a])
        C = ref.c4(E, nu)
    else:
        x0 = cf.mean(axis=0)
        u = (cf - x0) @ G.T
        S = 0.5*(G + G.T)
        eps = np.array([S[0, 0], S[1, 1], 2*S[0, 1]]) if dim == 2 else \
            np.array([S[0, 0], S[1, 1], S[2, 2], 2*S[1, 2], 2*S[0, 2], 2*S[0, 1]])
        C = ref.cstress(E, nu) if dim == 2 else ref.c3d(E, nu)
    sig = C @ eps
    f = np.zeros(dim*len(cf))
    pts, wts = ref.rule(base(name))
    for p, w in zip(pts, wts):
        N, dNx, det = ref.geom(base(name), cf, p)
        if name == "axi":
            r = N @ cf[:, 0]
            f += w*det*2*np.pi*r*ref.bmat(dNx, N, r).T @ sig
        else:
            f += w*det*ref.bmat(dNx).T @ sig
    ctx.close(K @ u.ravel(), f, "nodal forces of a uniform stress in %s (%s)" % (name, mode), tol*20,
              np.abs(K).max()*np.abs(u).max())
    ctx.key(name, cf, E, nu)
    ctx.note(family=name, mode=mode, E=E, nu=nu, coord=c)


FAMILIES = [Family(affine, 560, 12000), Family(general, 560, 12000)]
