"""C08 consistent mass."""
import numpy as np
from vlib.core import Family
from vlib import gen, ref
from checks.c04 import UEL, ALL, base, make
from checks.c07 import matches

RULE = ("a case is an admissible element, material and density (given or omitted); the returned mass is "
        "judged against independent integration, the element's true mass and inertia, and its covariances; "
        "distinct = (family, coordinates, density)")
ASSUMPTIONS = ["the optional density is optional for the 3/6-node triangles and 4/9-node quadrilaterals"]
OPT = ("tri3", "tri6", "quad4", "quad9")


def mass(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    c, mode = make(rng, name)
    cf = np.asarray(c, float)
    dim = cf.shape[1]
    E, nu, rho = gen.young(rng), gen.poisson(rng, True), gen.density(rng)
    amp = 1 + np.abs(cf).max()/np.ptp(cf, axis=0).max()
    tol = 3e-12*amp + 2e-11
    K, M = ctx.call(name, UEL[name], gen.dress(rng, c), gen.container(rng, [E, nu, rho]))
    M = np.asarray(M, float)
    what = "mass of %s (%s, rho=%g)" % (name, mode, rho)
    n = dim*len(cf)
    ctx.ok(M.shape == (n, n), what + " has shape %s" % (M.shape,))
    matches(ctx, what, name, M, cf, E, nu, rho, tol, 1)
    ctx.close(M, M.T, what + ": symmetry", 1e-12)
    w = np.linalg.eigvalsh(M)
    ctx.ok(w[0] > 0, what + " is not positive definite", lowest=w[0])
    true = rho*ref.measure(base(name), cf, name == "axi")
    # the mapped element area is a polynomial integral: every full rule is exact for it
    # (the kinetic energy of a translation too, since shape functions sum to one)
    for d in range(dim):
        t = np.zeros(n)
        t[d::dim] = 1
        mt = t @ M @ t
        ctx.close(mt, true, what + ": translational inertia along %d" % d, tol*10)
    for d in range(dim):
        for e in range(dim):
            if e != d:
                ctx.close(M[d::dim, e::dim], np.zeros((len(cf), len(cf))),
                          what + ": coupling of directions", 1e-13, np.abs(M).max())
    ctx.close(M[0::dim, 0::dim], M[1::dim, 1::dim], what + ": direction independence", 1e-13)
    # density and elastic constants
    f = gen.log_uniform(rng, 1e-3, 1e3)
    _, M2 = ctx.call(name, UEL[name], cf, gen.container(rng, [E*3, gen.poisson(rng), rho*f]))
    ctx.close(M2, M*f, what + ": proportional to density, independent of E and nu", tol)
    K0, M0 = ctx.call(name, UEL[name], cf, gen.container(rng, [E, nu, 0.0]))
    ctx.close(np.asarray(M0, float), np.zeros((n, n)), what + ": zero density", 0, 1)
    ctx.close(K0, K, what + ": stiffness for zero density", tol*(1 + 0.01/(0.5 - nu)/(1 + nu)))
    if name in OPT:
        _, M1 = ctx.call(name + " without density", UEL[name], cf, gen.container(rng, [E, nu]))
        ctx.close(M1, M/rho, what + ": default density is one", tol)
    # rotation and scaling
    if name != "axi":
        Q = gen.rot(rng, dim)
        x0 = cf.mean(axis=0)
        s = gen.log_uniform(rng, 1e-3, 1e3)
        _, M3 = ctx.call(name, UEL[name], (cf - x0) @ Q.T*s, [E, nu, rho])
        ctx.close(M3, M*s**dim, what + ": rotated and scaled element", tol*10)
    ctx.key(name, cf, rho)
    ctx.note(family=name, mode=mode, rho=rho, total=true)


FAMILIES = [Family(mass, 800, 20000)]
