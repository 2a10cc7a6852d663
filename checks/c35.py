"""C35 the same numbers give the same results whatever holds them."""
import contextlib
import io
import os
import tempfile
import warnings
import numpy as np
import scipy.sparse as sp
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
import solidspy.assemutil as ass
import solidspy.blochutil as blo
import solidspy.femutil as fem
import solidspy.gaussutil as gau
import solidspy.postprocesor as pos
import solidspy.preprocesor as pre
import solidspy.solutil as sol
import solidspy.uelutil as uel
from solidspy.solids_GUI import solids_auto
from vlib.core import Family, Violation
from vlib import gen, model, ref
from vlib.calls import Call, ELS, SHAPES, STRAIN, catalogue, copy_args, flat

RULE = ("a case is a set of calls over the whole interface, each made once with plain float64/int64 arrays and again "
        "with the same numbers held differently (integer and single-precision numbers, byte order, memory order, "
        "strides, read-only and memory-mapped buffers, small and unsigned integers, Python and numpy scalars); "
        "distinct = (calls, representations)")
ASSUMPTIONS = ["numbers held exactly in single precision give results to 1e-4 (analyses: 1e-2)",
               "numbers that a smaller type cannot hold exactly are not converted",
               "the solver takes plain arrays and CSR matrices only, as documented"]


def exact(a, dtype):
    with np.errstate(all="ignore"):
        return np.array_equal(a, a.astype(dtype)) and np.array_equal(a, a.astype(dtype).astype(a.dtype))


def layouts(rng, a, plain=False):
    """another buffer with the same values and the same type"""
    k = gen.pick(rng, "fortran", "strided", "reversed", "readonly", "offset", "mapped", "view")
    if plain and k == "mapped":
        k = "readonly"
    if k == "fortran":
        return np.asfortranarray(a), k
    if k == "strided":
        b = np.full(tuple(3*n for n in a.shape), 7).astype(a.dtype)[tuple(slice(1, None, 3) for _ in a.shape)]
        b[...] = a
        return b, k
    if k == "reversed":
        cut = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[cut])[cut], k
    if k == "offset":                          # not aligned to its item size
        raw = np.zeros(a.nbytes + 1, np.uint8)
        b = raw[1:1 + a.nbytes].view(a.dtype).reshape(a.shape)
        b[...] = a
        return b, k
    if k == "mapped" and a.size:
        b = np.memmap(tempfile.TemporaryFile(), dtype=a.dtype, mode="w+", shape=a.shape)
        b[...] = a
        return b, k
    if k == "view" and a.ndim == 2:            # columns of a wider table
        w = np.full((a.shape[0], a.shape[1] + 3), 5).astype(a.dtype)
        w[:, 1:1 + a.shape[1]] = a
        return w[:, 1:1 + a.shape[1]], k
    b = a.copy()
    b.flags.writeable = False
    return b, "readonly"


class Held:
    """re-creates arguments with other types; remembers what it did"""

    def __init__(self, rng, single=False, plain=False, endian=True):
        self.rng, self.single, self.plain, self.endian = rng, single, plain, endian
        self.did, self.narrow = [], False

    def array(self, a):
        rng = self.rng
        if a.dtype.kind == "f":
            opts = ["layout", "layout"]
            if self.endian:
                opts.append("endian")
            if a.size and np.array_equal(a, np.round(a)) and np.abs(a).max() < 2**31 and not np.signbit(a[a == 0]).any():
                opts += ["int64"]*4 + ["int32", "bigint"]
            if self.single and a.size and exact(a, np.float32):
                opts += ["float32", "float32"]
        elif a.dtype.kind == "i":
            opts = ["layout", "int32", "int16", "int8"] + (["uint64", "uint32", "uint16", "uint8"] if a.size and a.min() >= 0 else [])
            opts += ["bigint"] if self.endian else []
        else:
            opts = ["layout"]
        k = gen.pick(rng, *opts)
        if k == "layout":
            b, k = layouts(rng, a, self.plain)
        elif k == "endian":
            b = a.astype(a.dtype.newbyteorder(">"))
        elif k == "bigint":
            b = a.astype(">i4") if exact(a, ">i4") else a.copy()
        elif k == "float32":
            b = a.astype(np.float32)
            self.narrow = True
        else:
            b = a.astype(k) if exact(a, k) else a.astype(np.int64)
        self.did.append("%s as %s" % (a.dtype.name, k if b.dtype == a.dtype else b.dtype.str))
        return b

    def scalar(self, x):
        rng = self.rng
        if isinstance(x, bool):
            return x
        if isinstance(x, (int, np.integer)):
            k = gen.pick(rng, int, np.int64, np.int32, np.uint8 if 0 <= x < 255 else int)
            self.did.append("int as %s" % k.__name__)
            return k(x)
        if isinstance(x, (float, np.floating)):
            if x == int(x) and abs(x) < 2**31 and rng.random() < 0.6:
                k = gen.pick(rng, int, np.int64, np.float64)
            else:
                k = gen.pick(rng, np.float64, float, lambda v: np.array([v])[0])
            self.did.append("float as %s" % getattr(k, "__name__", "item"))
            return k(x)
        return x

    def any(self, x):
        if isinstance(x, np.ndarray):
            return self.array(x) if x.dtype.kind in "fi" and x.ndim else x
        if sp.issparse(x):
            return x.copy()
        if isinstance(x, dict):
            return {k: self.any(v) for k, v in x.items()}
        if isinstance(x, (tuple, list)):
            return type(x)(self.any(v) for v in x)
        if isinstance(x, (int, float, np.integer, np.floating)):
            return self.scalar(x)
        return x


def run(label, fn, args, kwargs):
    try:
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            return fn(*args, **kwargs)
    except Exception as exc:
        raise Violation("%s raised %s: %s" % (label, type(exc).__name__, str(exc)[:200])) from exc


def same(ctx, what, got, want, tol):
    g, w = list(flat(got)), list(flat(want))
    ctx.ok([p for p, _ in g] == [p for p, _ in w], what + ": another structure of results")
    for (p, a), (_, b) in zip(g, w):
        if isinstance(a, str) or isinstance(b, str):
            ctx.ok(a == b, "%s: %s: %s instead of %s" % (what, p, a, b))
            continue
        if b.dtype.kind not in "fciub":
            continue
        ctx.ok(a.shape == b.shape, "%s: %s has shape %s instead of %s" % (what, p, a.shape, b.shape))
        ok = np.isfinite(b)
        ctx.ok(np.array_equal(np.isfinite(a), ok), "%s: %s: infinite or undefined values" % (what, p))
        if ok.any():
            s = np.abs(b[ok]).max()
            d = np.abs(a[ok].astype(complex) - b[ok]).max()
            ctx.ok(d <= tol*s, "%s: %s differs by %.3g of %.3g" % (what, p, d, s))
            if s > 0 and tol < 1e-9:
                ctx.high("largest relative deviation seen", d/s)


def judge(ctx, calls, times=2, single=True):
    rng = ctx.rng
    kinds = set()
    for c in calls:
        want = run(c.label, c.fn, copy_args(c.args), copy_args(c.kwargs))
        for _ in range(times):
            h = Held(rng, single and rng.random() < 0.3, c.fn is sol.static_sol, c.fn is not sol.static_sol)
            args = h.any(c.args)
            what = "%s(%s)" % (c.label, ", ".join(h.did[:5]))
            got = run(what, c.fn, args, c.kwargs)
            same(ctx, what, got, want, 1e-4 if h.narrow else 1e-11)
            for d in h.did:
                kinds.add(d)
                ctx.event(d)
        ctx.event("calls compared", times)
    ctx.key([c.label for c in calls], sorted(kinds), rng.random())
    ctx.note(calls=len(calls), functions=len({c.label for c in calls}), representations=sorted(kinds)[:30])


def everything(ctx):
    """random arguments over every module"""
    calls = [c for c in catalogue(ctx.rng) if not c.changes and not (c.label == "static_sol" and sp.issparse(c.args[0]))]
    judge(ctx, calls, single=False)


def grid_points(rng, name):
    """an element whose corners have integer coordinates"""
    while True:
        xy, _ = gen.coords(rng, name, mode=gen.pick(rng, "affine", "distorted"))
        xy = np.round((xy - xy.mean(axis=0))/np.ptp(xy, axis=0).max()*rng.integers(20, 90)) + rng.integers(0, 9)
        try:
            ELS[name](xy, (1.0, 0.25, 1.0))
            d = xy.shape[1]
            pt = [0.0]*d if name[0] != "t" or d == 3 else [0.0, 1.0]
            (fem.elast_diff_2d if d == 2 else fem.elast_diff_3d)(*pt, xy, SHAPES[name])
        except ValueError:
            continue
        return xy


def integers(ctx):
    """arguments that are whole numbers, as they are typed in by hand"""
    rng = ctx.rng
    c = []
    for name, sh in SHAPES.items():
        d = ref.ELEMS[name]["dim"]
        for pt in rng.integers(0 if "t" == name[0] else -1, 2, (3, d)).astype(float):
            c.append(Call(sh, *[float(v) for v in pt]))
        xy = grid_points(rng, name)
        par = np.array([rng.integers(1, 300), 0, rng.integers(1, 9)], float)
        c += [Call(ELS[name], xy, par), Call(ELS[name], xy, [float(v) for v in par]), Call(ELS[name], xy, [2.0, 0.25, 3.0])]
        pt = [0.0]*d if name[0] != "t" or d == 3 else [0.0, 1.0]
        c += [Call(fem.elast_diff_2d if d == 2 else fem.elast_diff_3d, *pt, xy, sh),
              Call(fem.jacoper, np.array(ref.basis(name, np.array(pt))[1]), xy)]
        if name in STRAIN:
            c.append(Call(STRAIN[name], xy, rng.integers(-3, 4, xy.size).astype(float)))
    ax = np.array([[1, 0], [9, 0], [9, 8], [1, 8], [5, 0], [9, 4], [5, 8], [1, 4], [5, 4.0]]) + [int(rng.integers(0, 5)), int(rng.integers(-4, 5))]
    c += [Call(uel.elast_axi_quad9, ax, [3.0, 0.0, 2.0]), Call(fem.elast_diff_axi, 0.0, 0.0, ax, fem.shape_quad9)]
    c += [Call(f, [float(rng.integers(1, 9)), 0.0]) for f in (fem.umat, fem.elast_mat, fem.elast_mat_2d, fem.elast_mat_axi)]
    for _ in range(3):
        seg = np.array([[0, 0], rng.integers(1, 9, 2)*rng.choice([-1, 1], 2)], float) + rng.integers(-5, 5, 2)
        p = rng.integers(1, 9, 4).astype(float)
        c += [Call(uel.spring, seg, p[0]), Call(uel.spring, seg, p[:1]), Call(uel.truss2D, seg, p[:2]), Call(uel.truss2D, seg, p[:3]),
              Call(uel.beam2D, seg, p[:3]), Call(uel.beam2D, seg, p), Call(uel.beam2DU, seg, p[:2]), Call(uel.beam2DU, seg, p[:3]),
              Call(uel.beam2DU, seg, p)]
        T = rng.integers(-9, 9, (2, 2)).astype(float)
        c += [Call(pos.eigvals, T + T.T), Call(pos.principal_dirs, rng.integers(-9, 9, (5, 3)).astype(float))]
    n = int(rng.integers(2, 8))
    A = np.round(rng.normal(size=(n, n))*5) + 20*n*np.eye(n)
    c += [Call(sol.static_sol, A, rng.integers(-9, 9, n).astype(float)), Call(pos.energy, rng.integers(-9, 9, n).astype(float), A)]
    k = int(rng.integers(1, 6))
    c.append(Call(pre.rect_grid, float(rng.integers(1, 9)), float(rng.integers(1, 9)), k, int(rng.integers(1, 6))))
    pts = rng.integers(-5, 6, (9, 3)).astype(float)
    cells = {"triangle": np.array([[0, 1, 2], [2, 3, 4], [4, 5, 6]]), "line": np.array([[0, 1], [1, 2], [5, 6]])}
    data = {"triangle": {"gmsh:physical": np.array([1, 2, 1])}, "line": {"gmsh:physical": np.array([7, 7, 8])}}
    c += [Call(pre.node_writer, pts, {}), Call(pre.ele_writer, cells, data, "triangle", 1, 3, 0, int(rng.integers(5))),
          Call(pre.loading, cells, data, 7, 12.0, float(rng.integers(-9, 9)))]
    w = rng.integers(-3, 4, 2).astype(float)
    c.append(Call(blo.bloch_transform_mat, w, np.array([[0, 0], [1, 0], [0, 1], [1, 1.0]]), 8, [0, 0, 0], [1, 2, 3],
                  [0, 1]*3, [2, 3, 4, 5, 6, 7], {0: [0, 1]}, {1: [2, 3], 2: [4, 5], 3: [6, 7]}, [0, 1]*4))
    judge(ctx, c, times=2)


def whole_model(rng):
    """tables of whole numbers only"""
    kind = gen.pick(rng, "quad4", "tri3", "quad9", "tri6", "truss", "springs", "frame", "beams")
    nx, ny = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    if kind in ("quad4", "tri3", "quad9", "tri6"):
        s = 2 if kind in ("quad9", "tri6") else 1
        gx, gy = np.meshgrid(np.arange(s*nx + 1), np.arange(s*ny + 1))
        xy = np.column_stack([gx.ravel()*int(rng.integers(1, 5)), gy.ravel()*int(rng.integers(1, 5))]).astype(float)
        at = lambda i, j: j*(s*nx + 1) + i
        conn = []
        for j in range(0, s*ny, s):
            for i in range(0, s*nx, s):
                q = [at(i, j), at(i + s, j), at(i + s, j + s), at(i, j + s)]
                if s == 1:
                    conn += [q] if kind == "quad4" else [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
                else:
                    m = [at(i + 1, j), at(i + 2, j + 1), at(i + 1, j + 2), at(i, j + 1), at(i + 1, j + 1)]
                    conn += [q + m] if kind == "quad9" else [[q[0], q[1], q[2], m[0], m[1], m[4]], [q[0], q[2], q[3], m[4], m[2], m[3]]]
        nd, t = 2, ref.TYPE_ID[kind]
        mats = np.column_stack([rng.integers(1, 300, 2), [0, 0], rng.integers(1, 9, 2)]).astype(float)
        cons = np.where(xy[:, :1] == 0, -1, 0)*np.ones((1, 2), int)
        conn = np.array(conn)
    else:
        n = int(rng.integers(3, 8))
        xy = np.column_stack([np.arange(n)*int(rng.integers(2, 6)), (np.arange(n) % 2)*int(rng.integers(1, 6))]).astype(float)
        nd = 2 if kind in ("truss", "springs") else 3
        conn = [[i, i + 1] for i in range(n - 1)] + ([[i, i + 2] for i in range(n - 2)] if nd == 2 else [])
        conn = np.array(conn)
        t = {"truss": 6, "springs": 5, "frame": 8, "beams": 7}[kind]
        mats = rng.integers(1, 30, (2, 4 if nd == 3 else 3)).astype(float)
        cons = np.zeros((n, nd), int)
        cons[0] = -1
        cons[-1] = -1
        if kind == "beams":
            cons[:, 0] = -1                    # (axial freedoms have no stiffness)
            xy[:, 1] = 0
    loads = np.column_stack([rng.permutation(len(xy))[:3], rng.integers(-9, 10, (min(3, len(xy)), nd))]).astype(float)
    return model.Model(xy, conn, t, mats, rng.integers(0, 2, len(conn)), cons, loads, nd), kind


def models(ctx):
    """whole analyses of hand-typed models"""
    rng = ctx.rng
    m, kind = whole_model(rng)
    nodes, els = m.tables()
    nodes = np.asarray(nodes, float)
    cons = np.array(m.cons)
    mats, loads = np.array(m.mats, float), np.array(m.loads, float)
    kw = {} if m.nd == 2 else {"ndof_node": m.nd}

    table = rng.integers(-9, 10, (len(nodes), m.nd)).astype(float)

    def analysis(nodes, cons, els, mats, loads, table, vec):
        op, bc, neq = ass.DME(cons, els, **kw)
        vec = vec[:neq]
        out = {"op": op, "bc": bc, "neq": np.array(neq)}
        for sparse in (True, False):
            K, M = ass.assembler(els, mats, nodes, neq, op, sparse=sparse)
            f = ass.loadasem(loads, bc, neq, **kw)
            u = sol.static_sol(K, f)
            out[sparse] = [np.asarray(K.todense() if sparse else K), np.asarray(M.todense() if sparse else M), f, u]
        U = pos.complete_disp(bc, nodes, u, **kw)
        out["U"], out["W"] = U, np.array(pos.energy(u, K))
        out["typed"] = [pos.complete_disp(bc, nodes, vec, **kw), np.array(pos.energy(vec, K))]
        if kind in ("quad4", "tri3", "quad9", "tri6"):
            out["strains"] = pos.strain_nodes(nodes, els, mats, U)
            out["typed"].append(pos.strain_nodes(nodes, els, mats, table))
            out["triangles"] = pos.mesh2tri(nodes, els)
            out["all"] = solids_auto(dict(nodes=nodes, cons=cons, elements=els, mats=mats, loads=loads),
                                     plot_contours=rng.random() < 0.1, compute_strains=True)
            plt.close("all")
        else:
            out["all"] = solids_auto(dict(nodes=nodes, cons=cons, elements=els, mats=mats, loads=loads), plot_contours=False)
        if kind == "truss":
            out["stress"] = pos.stress_truss(nodes, els, mats, U)
            out["typed"].append(pos.stress_truss(nodes, els, mats, table))
        return out
    args = (nodes, cons, els, mats, loads, table, rng.integers(-9, 10, table.size).astype(float))
    want = run("analysis of a %s model" % kind, analysis, copy_args(args), {})
    did = []
    for _ in range(4):
        h = Held(rng, rng.random() < 0.2)
        other = h.any(args)
        what = "analysis of a %s model (%s)" % (kind, ", ".join("%s: %s" % x for x in zip(("nodes", "constraints", "elements", "materials", "loads", "displacements", "solution"), h.did)))
        same(ctx, what, run(what, analysis, other, {}), want, 1e-2 if h.narrow else 1e-9)
        did += h.did
        for d in h.did:
            ctx.event(d)
        ctx.event("analyses compared")
    ctx.key(kind, nodes, mats, loads, sorted(set(did)))
    ctx.note(kind=kind, nodes=len(nodes), representations=sorted(set(did)))


FAMILIES = [Family(everything, 24, 400), Family(integers, 60, 1500), Family(models, 120, 3000)]
