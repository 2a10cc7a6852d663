"""C10 beam members."""
import numpy as np
import solidspy.uelutil as uel
from vlib.core import Family
from vlib import gen, ref
from checks.c09 import ends

RULE = ("a case is a beam member (with or without axial stiffness), any orientation, length 1e-4..1e4, "
        "parameters with all optional entries given or omitted, as list/tuple/array; distinct = (kind, "
        "ends, parameters); oracle = member matrices integrated from Hermite curvature/axial energies")
ASSUMPTIONS = ["the mass of the beam without axial deformation carries transverse inertia only"]


def beam(ctx):
    rng = ctx.rng
    axial = ctx.index % 2 == 0
    xy = ends(rng)
    xf = xy.astype(float)
    d = xf[1] - xf[0]
    L = np.hypot(*d)
    if L > 1e4 or L < 1e-4:
        s = gen.log_uniform(rng, 1e-3, 1e3)/L
        xf = xf*s
        xy = xf
        d, L = d*s, L*s
    amp = 1 + np.abs(xf).max()/L
    tol = 3e-14*amp + 1e-12
    E, I, A, rho = gen.young(rng), gen.log_uniform(rng, 1e-8, 1e2), gen.log_uniform(rng, 1e-4, 1e2), gen.density(rng)
    if axial:
        fn, vals = uel.beam2D, [E, I, A, rho]
        nv = gen.pick(rng, 3, 4)
    else:
        fn, vals = uel.beam2DU, [E, I, rho, A]
        nv = gen.pick(rng, 2, 3, 4)
    r = rho if (nv > 3 or (not axial and nv > 2)) else 1.0
    a = A if (axial or nv > 3) else 1.0
    vals = vals[:nv]
    K, M = ctx.call(fn.__name__, fn, gen.dress(rng, xy), gen.container(rng, vals))
    K, M = np.asarray(K, float), np.asarray(M, float)
    EI, EA = E*I, (E*A if axial else 0.0)
    Kr, Mr = ref.frame(xf[0], xf[1], EI, EA, r*a)
    what = "%s %s %s" % (fn.__name__, xf.tolist(), vals)
    # entries have different units: compare after scaling rotations by the length
    S = np.diag([1, 1, 1/L]*2)
    ks = EI/L**3 + EA/L
    ctx.ok(K.shape == (6, 6) and M.shape == (6, 6), what + ": wrong shape")
    # axial and bending parts may differ by many decades: judge bending on its own scale
    Tl = local(d/L)
    Kl, Krl = S @ Tl @ K @ Tl.T @ S, S @ Tl @ Kr @ Tl.T @ S
    ctx.close(Kl, Krl, what + ": stiffness", tol*20, ks)
    bend = [1, 2, 4, 5]
    mix = tol*20*(EI/L**3) + 1e-13*ks
    ctx.close(Kl[np.ix_(bend, bend)], Krl[np.ix_(bend, bend)], what + ": bending stiffness", 1, mix)
    ctx.close(S @ M @ S, S @ Mr @ S, what + ": mass", tol*20)
    ctx.close(S @ K @ S, (S @ K @ S).T, what + ": symmetry", 1e-13, ks)
    if nv == 4:                                # massless
        v0 = [0.0 if (i == 3 and axial or i == 2 and not axial) else v for i, v in enumerate(vals)]
        K0, M0 = ctx.call(fn.__name__ + " without mass", fn, xf, gen.container(rng, v0))
        ctx.close(np.asarray(M0, float), np.zeros((6, 6)), what + ": mass for zero density", 0, 1)
        ctx.close(S @ K0 @ S, S @ K @ S, what + ": stiffness for zero density", 1e-13, ks*12)
    # rigid motions
    R = np.array([[1, 0, 0, 1, 0, 0], [0, 1, 0, 0, 1, 0],
                  [0, 0, 1, -d[1], d[0], 1]]).T.astype(float)
    ctx.close(K @ R / np.array([1, 1, L]), np.zeros((6, 3)), what + ": forces of rigid motions", tol*100,
              np.abs(K).max())
    # equilibrium of the end forces for any displacement
    u = rng.normal(size=6)/np.array([1, 1, L, 1, 1, L])
    f = K @ u
    ctx.close([f[0] + f[3], f[1] + f[4], (f[2] + f[5] + d[0]*f[4] - d[1]*f[3])/L], np.zeros(3),
              what + ": end-force equilibrium", tol*100, ks*12)
    w = np.linalg.eigvalsh(S @ K @ S)
    ctx.ok(w[0] > -1e-11*amp*w[-1], what + ": negative eigenvalue")
    # exact cantilever: tip force and moment
    P, Mo = rng.normal(size=2)
    t, n = d/L, np.array([-d[1], d[0]])/L
    tipv, tipr = P*L**3/(3*EI) + Mo*L**2/(2*EI), P*L**2/(2*EI) + Mo*L/EI
    ut = np.concatenate([tipv*n, [tipr]])
    fe = np.concatenate([P*n, [Mo]])
    got = (K[3:, 3:] @ ut)
    sc = np.array([1, 1, 1/L])
    # (the rounding of the direction lets the axial stiffness into the transverse motion)
    ctx.close(got*sc, fe*sc, what + ": cantilever tip load", tol*100, max(
        (np.abs(K[3:, 3:])*sc[:, None]) @ np.abs(ut)) + 1e-3*ks*np.abs(ut[:2]).max())
    # mass of translations
    for e in (np.array([1.0, 0, 0]*2), np.array([0, 1.0, 0]*2)):
        comp = 1.0 if axial else (e[:2] @ n)**2
        ctx.close(e @ M @ e, r*a*L*comp, what + ": translational inertia", tol*20, r*a*L)
    wm = np.linalg.eigvalsh(S @ M @ S)
    ctx.ok(wm[0] > (0 if axial else -1e-12*wm[-1]), what + ": mass is not positive")
    # rotated member
    th = gen.pick(rng, rng.uniform(0, 2*np.pi), np.pi/2, np.pi)
    Q = gen.rot2(th)
    T = np.eye(6)
    T[:2, :2] = T[3:5, 3:5] = Q
    K2, M2 = ctx.call(fn.__name__, fn, (xf - xf[0]) @ Q.T, vals)
    ctx.close(S @ K2 @ S, S @ T @ K @ T.T @ S, what + " rotated by %g" % th, tol*50, ks*12)
    ctx.close(S @ M2 @ S, S @ T @ M @ T.T @ S, what + " rotated by %g: mass" % th, tol*50)
    # reversed ends: same member
    P6 = [3, 4, 5, 0, 1, 2]
    K3, M3 = ctx.call(fn.__name__, fn, xf[::-1], vals)
    ctx.close(S @ K3 @ S, (S @ K @ S)[np.ix_(P6, P6)], what + " reversed", tol*50, ks*12)
    ctx.close(S @ M3 @ S, (S @ M @ S)[np.ix_(P6, P6)], what + " reversed: mass", tol*50)
    ctx.key(fn.__name__, xf, vals)
    ctx.note(kind=fn.__name__, ends=xf, params=vals)


def local(t):
    T = np.eye(6)
    T[:2, :2] = T[3:5, 3:5] = [[t[0], t[1]], [-t[1], t[0]]]
    return T


FAMILIES = [Family(beam, 1600, 50000)]
