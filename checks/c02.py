"""C02 shape functions."""
import itertools

import numpy as np
import solidspy.femutil as fem
from vlib.core import Family
from vlib import gen, ref

RULE = ("a case evaluates one element family at a batch of points (nodes, edges, vertices, lattice, "
        "interior, outside; int/float/numpy scalars); distinct = (family, point); oracle = nodal basis "
        "obtained by inverting the Vandermonde matrix of the family's polynomial space")
ASSUMPTIONS = ["node order and reference domains as documented and pinned by the unit tests at the nodes"]

SHAPE = {"tri3": fem.shape_tri3, "tri6": fem.shape_tri6, "quad4": fem.shape_quad4,
         "quad8": fem.shape_quad8, "quad9": fem.shape_quad9, "tet4": fem.shape_tet4,
         "hex8": fem.shape_hex8}
NAMES = sorted(SHAPE)


def probe(ctx, name, pt, args=None):
    e = ref.ELEMS[name]
    n, dim = len(e["nodes"]), e["dim"]
    N, dN = ctx.call("shape_" + name, SHAPE[name], *(args or [float(v) for v in pt]))
    N, dN = np.asarray(N, float), np.asarray(dN, float)
    Nr, dNr = ref.basis(name, pt)
    s = 1 + np.abs(Nr).max()
    sd = 1 + np.abs(dNr).max()
    where = " of %s at %s" % (name, tuple(float(v) for v in pt))
    ctx.close(N, Nr, "shape functions" + where, 1e-12, s)
    ctx.close(dN, dNr, "derivatives" + where, 1e-12, sd)
    ctx.close(N.sum(), 1.0, "sum of shape functions" + where, 1e-12, s*n)
    ctx.close(dN.sum(axis=1), np.zeros(dim), "sum of derivatives" + where, 1e-12, sd*n)
    X = np.array(e["nodes"], float)
    for ex in itertools.product(range(ref.DEGREE[name] + 1), repeat=dim):
        if sum(ex) <= ref.DEGREE[name]:
            f = np.prod(X**np.array(ex), axis=1)
            v, g = ref.monomials([ex], pt)
            ctx.close(N @ f, v[0], "polynomial %s%s" % (ex, where), 1e-12, s*n)
            ctx.close(dN @ f, g[:, 0], "gradient of polynomial %s%s" % (ex, where), 1e-12, sd*n)
    ctx.key(name, np.asarray(pt, float))


def nodes(ctx):
    name = NAMES[ctx.index % len(NAMES)]
    for k, x in enumerate(ref.ELEMS[name]["nodes"]):
        args = [int(v) if float(v).is_integer() and ctx.rng.random() < 0.5 else np.float64(v) for v in x]
        N, _ = ctx.call("shape_" + name, SHAPE[name], *args)
        ctx.close(N, np.eye(len(ref.ELEMS[name]["nodes"]))[k], "%s at its node %d" % (name, k), 1e-14, 1.0)
        probe(ctx, name, x, args)
    ctx.note(family=name, points="nodes")


def points(ctx):
    rng = ctx.rng
    name = NAMES[ctx.index % len(NAMES)]
    e = ref.ELEMS[name]
    dim = e["dim"]
    kinds = []
    for _ in range(25):
        k = gen.pick(rng, "inside", "edge", "lattice", "outside", "axis", "int", "tiny", "mixed")
        if e["dom"] == "box":
            p = rng.uniform(-1, 1, dim)
        else:
            p = rng.dirichlet(np.ones(dim + 1))[1:]
        if k == "edge":
            i = rng.integers(dim)
            p[i] = gen.pick(rng, -1.0, 1.0) if e["dom"] == "box" else 0.0
        elif k == "lattice":
            p = rng.integers(-4, 5, dim)/4
        elif k == "outside":
            p = rng.uniform(-3, 3, dim)
        elif k == "axis":
            p[rng.integers(dim)] = 0.0
        elif k == "int":
            p = rng.integers(-2, 3, dim)
        elif k == "tiny":
            p = rng.normal(size=dim)*10.0**rng.integers(-12, -3)
        elif k == "mixed":                      # whole coordinates as int, the others as float
            p[rng.integers(dim)] = rng.integers(-1, 2)
        args = [int(v) if float(v).is_integer() else float(v) for v in p] if k in ("int", "mixed") else \
            (list(np.asarray(p)) if rng.random() < 0.5 else [float(v) for v in p])
        probe(ctx, name, np.asarray(p, float), args)
        kinds.append(k)
    ctx.note(family=name, kinds=kinds[:6], last_point=p)


FAMILIES = [Family(nodes, 14, 70), Family(points, 420, 14000)]
