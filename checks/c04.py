"""C04 Jacobian gate."""
import itertools

import numpy as np
import solidspy.assemutil as ass
import solidspy.femutil as fem
import solidspy.postprocesor as pos
import solidspy.uelutil as uel
from vlib.core import Family
from vlib import gen, ref
from checks.c02 import SHAPE

RULE = ("a case is an element (or a mesh holding one) that is either admissible, turned inside out, "
        "collapsed, or folded at an integration point, at scales 1e-9..1e9; distinct = coordinates; "
        "oracle = sign of the determinant recomputed at the integration points")
ASSUMPTIONS = ["elements whose worst integration point has a normalised determinant between 0 and 1e-4 "
               "are not judged", "structural members are out of scope"]

UEL = {"tri3": uel.elast_tri3, "tri6": uel.elast_tri6, "quad4": uel.elast_quad4,
       "quad8": uel.elast_quad8, "quad9": uel.elast_quad9, "axi": uel.elast_axi_quad9,
       "tet4": uel.elast_tet4, "hex8": uel.elast_hex8}
ALL = sorted(UEL)


def base(name):
    return "quad9" if name == "axi" else name


def make(rng, name, mode=None, size=None):
    if name == "axi":
        return gen.axi_coords(rng, mode, size)
    return gen.coords(rng, name, mode, size)


def par(rng, name):
    return gen.container(rng, [gen.young(rng), gen.poisson(rng), gen.density(rng)])


def thin(rng, name, size):
    X = np.array(ref.ELEMS[base(name)]["nodes"], float)
    S = np.ones(X.shape[1])
    S[rng.integers(len(S))] = 10.0**-gen.pick(rng, rng.uniform(1, 2.5), rng.uniform(2, 5.8))
    c = X*S
    return (c - c.min(axis=0) + [0.2] + [0]*(len(S) - 1) if name == "axi" else c @ gen.rot(rng, len(S)).T)*size


def flipped(rng, name, coord):
    """reverse the orientation"""
    n = base(name)
    how = rng.integers(2)
    c = np.array(coord, float)
    if how == 0 or name == "axi":                           # mirror image, same node order
        ax = rng.integers(c.shape[1]) if name != "axi" else 1
        c[:, ax] = -c[:, ax]
        return c
    perm = {"tri3": [0, 2, 1], "tri6": [0, 2, 1, 5, 4, 3], "quad4": [0, 3, 2, 1],
            "quad8": [0, 3, 2, 1, 7, 6, 5, 4], "quad9": [0, 3, 2, 1, 7, 6, 5, 4, 8],
            "tet4": [0, 2, 1, 3], "hex8": [4, 5, 6, 7, 0, 1, 2, 3]}[n]
    return c[perm]


def collapsed(rng, name):
    """all nodes on a line (2D) or in a plane (3D), or coincident nodes; exact arithmetic"""
    n = base(name)
    X = np.array(ref.ELEMS[n]["nodes"])*2
    dim = X.shape[1]
    how = rng.integers(3)
    A = rng.integers(-3, 4, (dim, dim)).astype(float)
    A[-1] = A[0]*rng.integers(-2, 3)          # singular map
    if how == 0:
        A[:] = 0                              # a single point
    c = X @ A.T
    if how == 2:
        c = X*1.0
        c[:, rng.integers(dim)] = rng.integers(-3, 4)
    if name == "axi":
        c[:, 0] += 1 - c[:, 0].min()
    elif rng.random() < 0.5:
        c = c + rng.integers(-4, 5, dim)
    return c*gen.pick(rng, 1.0, 2.0**-20, 2.0**20)


def accepted(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    size = gen.pick(rng, 1.0, 1e-9, 1e-6, 1e-4, 1e4, 1e6, 1e9, gen.log_uniform(rng, 1e-9, 1e9))
    if rng.random() < 0.25:    # thin but well oriented
        c, mode = thin(rng, name, size), "thin"
    else:
        c, mode = make(rng, name, gen.pick(rng, "affine", "distorted", "curved"), size)
    K, M = ctx.call(name + " on an admissible element", UEL[name], gen.dress(rng, c), par(rng, name))
    ctx.ok(np.isfinite(K).all() and np.isfinite(M).all(), "non-finite matrices for an admissible element", family=name)
    ctx.ok(np.abs(K).max() > 0 and np.trace(M) > 0, "empty matrices for an admissible element", family=name)
    e = ref.ELEMS[base(name)]
    p = np.array(e["nodes"], float).mean(axis=0)
    sh = SHAPE[base(name)]
    if e["dim"] == 3:
        ctx.call("elast_diff_3d on an admissible element", fem.elast_diff_3d, *p, c, sh)
    else:
        ctx.call("elast_diff_2d on an admissible element", fem.elast_diff_2d, *p, c, sh)
    ctx.event("admissible elements accepted")
    ctx.key(name, c)
    ctx.note(family=name, mode=mode, size=size)


def refused(ctx):
    rng = ctx.rng
    name = ALL[ctx.index % len(ALL)]
    kind = gen.pick(rng, "flipped", "collapsed", "folded", "thin flipped", "slightly folded")
    if kind == "flipped":
        c, _ = make(rng, name, gen.pick(rng, "affine", "distorted", "curved", "integer"),
                    gen.log_uniform(rng, 1e-9, 1e9))
        c = flipped(rng, name, c)
    elif kind == "collapsed":
        c = collapsed(rng, name)
    elif kind == "thin flipped":
        c = flipped(rng, name, thin(rng, name, gen.log_uniform(rng, 1e-9, 1e9)))
    elif kind == "slightly folded":
        c = folded(rng, name, True)
        if c is None:
            kind = "thin flipped"
            c = flipped(rng, name, thin(rng, name, 1.0))
    else:
        c = folded(rng, name)
        if c is None:
            kind = "collapsed"
            c = collapsed(rng, name)
    ctx.raises(ValueError, "%s on a %s element" % (name, kind), UEL[name], gen.dress(rng, c), par(rng, name))
    ctx.ok(True, "")
    ctx.event("inadmissible elements refused")
    if "folded" not in kind:
        e = ref.ELEMS[base(name)]
        p = np.array(e["nodes"], float).mean(axis=0) + rng.uniform(-0.05, 0.05, e["dim"])
        sh = SHAPE[base(name)]
        fn = {"axi": fem.elast_diff_axi}.get(name, fem.elast_diff_3d if e["dim"] == 3 else fem.elast_diff_2d)
        ctx.raises(ValueError, "%s on a %s element" % (fn.__name__, kind), fn, *p, c, sh)
    ctx.key(name, c)
    ctx.note(family=name, kind=kind, coord=c)


def dets(n, c):
    """normalised determinants at the integration points"""
    res = []
    for p in ref.full_rule(n)[0]:
        J = ref.basis(n, p)[1] @ c
        res.append(np.linalg.det(J)/np.linalg.norm(J)**len(J))
    return res


def folded(rng, name, slightly=False):
    """good at some integration points, negative at one of them: clearly, or by a little"""
    n = base(name)
    if n in ("tri3", "tet4"):
        return None
    X = np.array(ref.ELEMS[n]["nodes"], float)
    for _ in range(200):
        c = X.copy()
        k = rng.integers(len(X))
        move = rng.uniform(-2.5, 2.5, X.shape[1])*(1 if n != "tri6" else 0.5)
        c[k] += move
        d = dets(n, c)
        if not (min(d) < -1e-3 and max(d) > 1e-2):
            continue
        if slightly:                          # on the way from the sound element to this one
            want, lo, hi = -10.0**-rng.uniform(3, 6), 0.0, 1.0
            for _ in range(80):
                t = 0.5*(lo + hi)
                c = X.copy()
                c[k] += t*move
                lo, hi = (t, hi) if min(dets(n, c)) > want else (lo, t)
            if abs(min(dets(n, c)) - want) > 0.1*abs(want):
                continue
        T, s = gen.affine(rng, X.shape[1]).T, gen.scale(rng)
        if name == "axi":
            T, s = np.eye(2), 1.0
        c = c @ T*s
        if name == "axi":
            c[:, 0] += 0.5 - c[:, 0].min()
        d = dets(n, c)
        if min(d) < -1e-7 and max(d) > 1e-3:
            return c
    return None


def in_mesh(ctx):
    """a bad element anywhere in a mesh stops the assembly and the strain recovery"""
    rng = ctx.rng
    name = ["tri3", "quad4", "tri6", "quad9"][ctx.index % 4]
    xy, conn = gen.mesh2d(rng, name)
    mats = gen.materials(rng)
    mid = rng.integers(0, len(mats), len(conn))
    nodes, elements = gen.tables(rng, xy, conn, ref.TYPE_ID[name], mid)
    cons = gen.clamp(rng, xy)
    op, bc, neq = ctx.call("DME", ass.DME, cons, elements)
    sparse = bool(rng.integers(2))
    ctx.call("assembler", ass.assembler, elements, mats, nodes, neq, op, sparse=sparse)
    u = rng.normal(size=(len(xy), 2))
    ctx.call("strain_nodes", pos.strain_nodes, nodes, elements, mats, u)
    k = gen.pick(rng, 0, len(conn) - 1, int(rng.integers(len(conn))))
    bad = np.array(elements).copy()
    how = rng.integers(2)
    perm = {"tri3": [0, 2, 1], "tri6": [0, 2, 1, 5, 4, 3], "quad4": [0, 3, 2, 1],
            "quad9": [0, 3, 2, 1, 7, 6, 5, 4, 8]}[name]
    if how == 0:
        bad[k, 3:] = bad[k, 3:][perm]
    else:
        bad[k, 4:] = bad[k, 3]                # collapsed on its first node
    op, bc, neq = ctx.call("DME", ass.DME, cons, bad)
    ctx.raises(ValueError, "assembler with element %d of %d inverted or collapsed" % (k, len(conn)),
               ass.assembler, bad, mats, nodes, neq, op, sparse=sparse)
    ctx.raises(ValueError, "strain_nodes with element %d of %d inverted or collapsed" % (k, len(conn)),
               pos.strain_nodes, nodes, bad, mats, u)
    ctx.ok(True, "")
    ctx.event("meshes with one bad element refused")
    ctx.key(name, xy, k, how)
    ctx.note(family=name, elements=len(conn), bad=k, how=["reversed", "collapsed"][how])


FAMILIES = [Family(accepted, 400, 8000), Family(refused, 480, 8000), Family(in_mesh, 80, 1200)]
