"""C09 springs and trusses."""
import numpy as np
import solidspy.uelutil as uel
from vlib.core import Family
from vlib import gen, ref

RULE = ("a case is a pair of end points (all quadrants, axis-parallel, integer, lengths 1e-6..1e6, far "
        "offsets) with member parameters in some container; distinct = (kind, end points, parameters); "
        "oracle = gradient of the projected elongation")


def ends(rng):
    k = rng.integers(5)
    if k == 0:
        p = rng.integers(-5, 6, 2)
        q = p + [(1, 0), (0, 1), (-1, 0), (0, -1), (3, 4), (-3, 4), (1, 1), (2, -2)][rng.integers(8)]
        return np.array([p, q])
    L = gen.scale(rng)
    # some are almost, but not quite, parallel to an axis or a diagonal
    t = gen.pick(rng, rng.uniform(0, 2*np.pi), rng.integers(8)*np.pi/4, rng.integers(8)*np.pi/4
                 + rng.choice([-1, 1])*10.0**-rng.uniform(2, 9))
    p = rng.uniform(-1, 1, 2)*L*gen.pick(rng, 0, 1, 20, 1000)
    return np.array([p, p + L*np.array([np.cos(t), np.sin(t)])])


def judge(ctx, what, xy, K, k, tol):
    rng = ctx.rng
    xy = np.asarray(xy, float)
    K = np.asarray(K, float)
    ctx.close(K, ref.bar(xy[0], xy[1], k), what + " stiffness", tol, k)
    ctx.close(K, K.T, what + " symmetry", 1e-14, k)
    R = ref.rigid_modes(xy)
    ctx.close(K @ R, 0*R, what + ": forces of rigid motions", tol*4, k)
    t = (xy[1] - xy[0])/np.hypot(*(xy[1] - xy[0]))
    nrm = np.array([-t[1], t[0]])
    ctx.close(K @ np.concatenate([nrm*0, nrm]), np.zeros(4), what + ": transverse displacement", tol*4, k)
    d = rng.normal()
    f = K @ np.concatenate([0*t, d*t])
    ctx.close(f, np.concatenate([-k*d*t, k*d*t]), what + ": end forces", tol*4, k)
    w = np.linalg.eigvalsh(K)
    ctx.close(w, [0, 0, 0, 2*k], what + ": spectrum", tol*4, k)


def spring(ctx):
    rng = ctx.rng
    xy = ends(rng)
    xf = xy.astype(float)
    amp = 1 + np.abs(xf).max()/np.hypot(*(xf[1] - xf[0]))
    tol = 4e-15*amp + 1e-13
    k = gen.pick(rng, 1.0, 8/3, gen.log_uniform(rng, 1e-6, 1e12))
    prof = gen.pick(rng, k, [k], (k, 0.3), [k, 1.0, 7.0], np.array([k]), np.array([k, 5.0]),
                    np.array([k, 2*k, 3.0, 4.0]), np.float64(k), np.array(k))
    K, M = ctx.call("spring", uel.spring, gen.dress(rng, xy), prof)
    what = "spring %s" % (xf.tolist(),)
    judge(ctx, what, xf, K, k, tol)
    ctx.close(M, np.zeros((4, 4)), what + ": mass", 0, 1)
    K2, _ = ctx.call("spring", uel.spring, xy[::-1], prof)
    P = [2, 3, 0, 1]
    ctx.close(K2, np.asarray(K)[np.ix_(P, P)], what + " reversed", tol, k)
    ctx.key("spring", xf, k)
    ctx.note(kind="spring", ends=xf, k=k, profile=type(prof).__name__)


def truss(ctx):
    rng = ctx.rng
    xy = ends(rng)
    xf = xy.astype(float)
    L = np.hypot(*(xf[1] - xf[0]))
    amp = 1 + np.abs(xf).max()/L
    tol = 8e-15*amp + 1e-13
    E, A, rho = gen.young(rng), gen.log_uniform(rng, 1e-6, 1e3), gen.density(rng)
    if rng.random() < 0.2:
        E, A = int(rng.integers(1, 9)), int(rng.integers(1, 9))
    withrho = rng.random() < 0.6
    vals = [E, A] + ([rho] if withrho else [])
    K, M = ctx.call("truss2D", uel.truss2D, gen.dress(rng, xy), gen.container(rng, vals))
    what = "truss %s" % (xf.tolist(),)
    if withrho:
        _, M0 = ctx.call("truss2D without mass", uel.truss2D, xf, gen.container(rng, [E, A, 0.0]))
        ctx.close(np.asarray(M0, float), np.zeros((4, 4)), what + ": mass for zero density", 0, 1)
    judge(ctx, what, xf, K, E*A/L, tol)
    r = rho if withrho else 1.0
    M = np.asarray(M, float)
    ctx.close(M, ref.bar_mass(xf[0], xf[1], r*A), what + ": mass", tol)
    for d in (0, 1):
        t = np.zeros(4)
        t[d::2] = 1
        ctx.close(t @ M @ t, r*A*L, what + ": total mass", tol)
    th = rng.uniform(0, 2*np.pi)
    T = np.kron(np.eye(2), ref_rot(th))
    K2, M2 = ctx.call("truss2D", uel.truss2D, (xf - xf[0]) @ ref_rot(th).T, vals)
    ctx.close(K2, T @ np.asarray(K) @ T.T, what + " rotated", tol*10, E*A/L)
    ctx.close(M2, T @ M @ T.T, what + " rotated: mass", tol*10)
    P = [2, 3, 0, 1]
    K3, M3 = ctx.call("truss2D", uel.truss2D, xf[::-1], vals)
    ctx.close(K3, np.asarray(K)[np.ix_(P, P)], what + " reversed", tol, E*A/L)
    ctx.close(M3, M[np.ix_(P, P)], what + " reversed: mass", tol)
    ctx.key("truss", xf, vals)
    ctx.note(kind="truss", ends=xf, params=vals)


def ref_rot(t):
    return gen.rot2(t)


FAMILIES = [Family(spring, 1200, 40000), Family(truss, 1200, 40000)]
