"""C05 constitutive matrices."""
import numpy as np
import solidspy.femutil as fem
from vlib.core import Family
from vlib import gen, ref

RULE = ("a case is a material (E over 16 decades, nu in (-1, 1/2) incl. 0, negative and nearly "
        "incompressible; tuple, list, array, int) judged in all four matrices; distinct = (E, nu)")
ASSUMPTIONS = ["component order of the axisymmetric/plane matrices: 11 22 12 33; three-dimensional: "
               "11 22 33 23 13 12, engineering shears"]


def material(ctx):
    rng = ctx.rng
    E = gen.pick(rng, gen.young(rng), gen.log_uniform(rng, 1e-6, 1e13), float(rng.integers(1, 100)), 8/3)
    nu = gen.pick(rng, gen.poisson(rng, True), float(rng.uniform(-0.99, 0.499)), 1/3, 0.0, 0.25, 0.499,
                  0.5 - 10.0**-rng.uniform(1, 8), 10.0**-rng.uniform(1, 8) - 1, 10.0**-rng.uniform(1, 12)*rng.choice([-1, 1]))
    if rng.random() < 0.1:
        E, nu = int(rng.integers(1, 50)), 0
    p = (E, nu) if rng.random() < 0.3 else gen.container(rng, [E, nu])
    lam, mu = ref.lame(E, nu)
    tol = 1e-12/(1 - 2*nu)/(1 + nu) + 1e-13
    full = ref.c3d(E, nu)
    k = [0, 1, 5, 2]
    want = {"umat": ref.cstress(E, nu), "elast_mat_2d": full[np.ix_(k, k)],
            "elast_mat_axi": full[np.ix_(k, k)], "elast_mat": full}
    got = {}
    for name, ref_c in want.items():
        C = np.asarray(ctx.call(name, getattr(fem, name), p), float)
        got[name] = C
        label = "%s(E=%g, nu=%g)" % (name, E, nu)
        ctx.close(C, ref_c, label, tol)
        ctx.close(C, C.T, label + " symmetry", 1e-14)
        ctx.ok(np.linalg.eigvalsh(C).min() > 0, label + " is not positive definite")
        S = np.linalg.inv(C/E)
        ctx.close(S[0, 0], 1.0, label + ": uniaxial compliance", 1e-9/(1 - 2*nu)/(1 + nu))
        ctx.close(S[1, 0], -nu, label + ": lateral contraction", 1e-9/(1 - 2*nu)/(1 + nu), 1.0)
        s = {"umat": 2, "elast_mat_2d": 2, "elast_mat_axi": 2, "elast_mat": 5}[name]
        ctx.close(S[s, s], 2*(1 + nu), label + ": shear compliance", 1e-10/(1 + nu))
        f = gen.log_uniform(rng, 1e-3, 1e3)
        C2 = ctx.call(name, getattr(fem, name), [E*f, nu])
        ctx.close(C2, f*C, label + ": proportional to E", 1e-12)
        # rotation of the axes in the plane 12
        t = rng.uniform(0, np.pi)
        c, s_ = np.cos(t), np.sin(t)
        if name == "elast_mat":
            R = ref_rot(gen.rot(rng, 3))
        else:
            R = np.array([[c*c, s_*s_, 2*s_*c], [s_*s_, c*c, -2*s_*c], [-s_*c, s_*c, c*c - s_*s_]])
            if name != "umat":
                R = np.block([[R, np.zeros((3, 1))], [np.zeros((1, 3)), np.ones((1, 1))]])
        ctx.close(R @ C @ R.T, C, label + ": isotropy", 1e-11 + 1e-14/(1 + nu)/(1 - 2*nu))
    # plane stress is the zero-normal-stress condensation of the out-of-plane matrix
    C = got["elast_mat_2d"]
    cond = C[:3, :3] - np.outer(C[:3, 3], C[3, :3])/C[3, 3]
    ctx.close(cond, got["umat"], "condensed plane matrix vs plane stress (E=%g, nu=%g)" % (E, nu),
              1e-11/(1 - 2*nu)/(1 + nu))
    # effective constants turn plane stress into plane strain
    Ce = ctx.call("umat", fem.umat, (E/(1 - nu**2), nu/(1 - nu)))
    ctx.close(Ce, C[:3, :3], "plane strain by effective constants", 1e-11/(1 - 2*nu)/(1 + nu))
    ctx.key(E, nu)
    ctx.note(E=E, nu=nu, container=type(p).__name__)


def ref_rot(Q):
    """stress transformation in the order 11 22 33 23 13 12"""
    idx = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    R = np.zeros((6, 6))
    for j, (a, b) in enumerate(idx):
        s = np.zeros((3, 3))
        s[a, b] = s[b, a] = 1
        t = Q @ s @ Q.T
        R[:, j] = [t[p] for p in idx]
    return R


FAMILIES = [Family(material, 2000, 60000)]
