"""C06 element stiffness invariants."""
import numpy as np
from vlib.core import Family
from vlib import gen, ref
from checks.c04 import UEL, ALL, base, make

RULE = ("a case is an admissible element of one of the eight continuum families with a material; the "
        "monitors judge symmetry, spectrum, null space and covariance of the returned stiffness; "
        "distinct = (family, coordinates, material)")
ASSUMPTIONS = ["null space judged where the softest deformation mode is above 1e-12 of the stiffest"]


def par(rng, E, nu, rho, name):
    vals = [E, nu, rho]
    if name in ("tri3", "tri6", "quad4", "quad9") and rng.random() < 0.3:
        vals = vals[:2]
    return gen.container(rng, vals)


def invariants(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    c, mode = make(rng, name)
    cf = np.asarray(c, float)
    dim = cf.shape[1]
    E, nu, rho = gen.young(rng), gen.poisson(rng), gen.density(rng)
    amp = 1 + np.abs(cf).max()/np.ptp(cf, axis=0).max()
    tol = 3e-12*amp + 1e-11
    K, _ = ctx.call(name, UEL[name], gen.dress(rng, c), par(rng, E, nu, rho, name))
    K = np.asarray(K, float)
    n = dim*len(cf)
    what = "stiffness of %s (%s)" % (name, mode)
    ctx.ok(K.shape == (n, n), what + " has shape %s" % (K.shape,))
    ctx.close(K, K.T, what + ": symmetry", 1e-12)
    w = np.linalg.eigvalsh(K)
    nr = 1 if name == "axi" else {2: 3, 3: 6}[dim]
    ctx.ok(w[0] > -tol*10*w[-1], what + " has a negative eigenvalue %.3g of %.3g" % (w[0], w[-1]))
    R = ref.rigid_modes(cf, name == "axi")
    ctx.close(K @ R, 0*R, what + ": forces of rigid motions", tol*30, np.abs(K).max())
    # the softest deformation mode: as stiff as that of the independent element
    wr = np.linalg.eigvalsh(ref.element(base(name), cf, E, nu, rho, name == "axi")[0])
    soft = wr[nr]/wr[-1]
    if soft > 1e-12*amp:
        ctx.high("largest ratio of eigenvalues", 1/soft)
        ctx.ok(w[nr] > 0.3*soft*w[-1], what + ": more than %d zero-energy modes" % nr,
               eigenvalues=w[:nr + 3]/w[-1], expected=wr[:nr + 3]/wr[-1])
        ctx.event("spectra with a resolved gap")
    # frame indifference
    if name == "axi":
        t = np.array([0.0, rng.uniform(-3, 3)*np.ptp(cf)])
        c2, Q = cf + t, np.eye(2)
    else:
        Q = gen.rot(rng, dim)
        x0 = cf.mean(axis=0)
        c2 = (cf - x0) @ Q.T + gen.pick(rng, x0, 0*x0, x0 + rng.normal(size=dim)*np.ptp(cf))
    K2, _ = ctx.call(name, UEL[name], c2, par(rng, E, nu, rho, name))
    T = np.kron(np.eye(len(cf)), Q)
    ctx.close(K2, T @ K @ T.T, what + ": rotated/translated element", tol*10)
    # scaling of lengths and of the modulus
    s, f = gen.log_uniform(rng, 1e-3, 1e3), gen.log_uniform(rng, 1e-3, 1e3)
    x0 = np.array([0.0, cf[:, 1].mean()]) if name == "axi" else cf.mean(axis=0)
    K3, _ = ctx.call(name, UEL[name], (cf - x0)*s, par(rng, E*f, nu, rho, name))
    power = {2: 0, 3: 1}[dim] if name != "axi" else 1
    ctx.close(K3, K*f*s**power, what + ": scaled lengths and modulus", tol*10)
    # renumbering
    perm = np.array(ref.ROTATION[base(name)])
    idx = (perm[:, None]*dim + np.arange(dim)).ravel()
    K4, _ = ctx.call(name, UEL[name], cf[perm], par(rng, E, nu, rho, name))
    ctx.close(K4, K[np.ix_(idx, idx)], what + ": renumbered element", tol*10)
    # the elastic matrix does not know the density
    ctx.key(name, cf, E, nu)
    ctx.note(family=name, mode=mode, E=E, nu=nu, coord=c)


def strict(ctx):
    """integer-typed and canonical geometries, exact symmetries of the square"""
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    X = np.array(ref.ELEMS[base(name)]["nodes"])
    X = (2*X).astype(int) if not np.all(X == np.round(X)) else X.astype(int)
    if name == "axi":
        X = X + [3, 0]
    E, nu = int(rng.integers(1, 9)), gen.poisson(rng)
    Ki, Mi = ctx.call(name, UEL[name], X, [E, nu, 2])
    Kf, Mf = ctx.call(name, UEL[name], X.astype(float), (float(E), float(nu), 2.0))
    ctx.close(Ki, Kf, "integer and float coordinates of %s" % name, 1e-13)
    ctx.close(Mi, Mf, "integer and float coordinates of %s" % name, 1e-13)
    K5, _ = ctx.call(name, UEL[name], X, [E, nu, 5.0])
    ctx.close(K5, Kf, "stiffness of %s for another density" % name, 1e-13)
    # superposition of materials: K(E1)+K(E2) = K(E1+E2)
    K2, _ = ctx.call(name, UEL[name], X, [3.5*E, nu, 1.0])
    K3, _ = ctx.call(name, UEL[name], X, [4.5*E, nu, 1.0])
    ctx.close(K3, np.asarray(K2) + np.asarray(Ki), "additivity in E of %s" % name, 1e-12)
    ctx.key("int", name, E, nu)
    ctx.note(family=name, E=E, nu=nu)


FAMILIES = [Family(invariants, 640, 16000), Family(strict, 64, 800)]
