"""C33 work and memory of an analysis grow in proportion to the model."""
import contextlib
import gc
import io
import os
import shutil
import sys
import tempfile
import time
import tracemalloc
import warnings
import numpy as np
import scipy.sparse as sp
import solidspy.assemutil as ass
import solidspy.blochutil as blo
import solidspy.postprocesor as pos
import solidspy.preprocesor as pre
import solidspy.solutil as sol
from solidspy.solids_GUI import solids_GUI, solids_auto
from checks.c22 import write
from vlib.core import REPO, CaseTimeout, Family, Violation
from vlib import gen, model, ref

RULE = ("a case is one part of the interface run on two models of the same kind, one many times larger; the peak of "
        "allocated memory (traced allocations) and the number of executed lines of the library (line events) are "
        "recorded and their growth compared with that of the model; distinct = (part, sizes)")
ASSUMPTIONS = ["allocations of numpy and Python objects are traced, those inside compiled factorizations are not",
               "work inside compiled calls is seen through the processor time of models 15 times as large "
               "(quadratic growth that stays below 0.3 s is not seen)",
               "growth up to twice that of the model is accepted"]
SLACK = 2.0
LIB = os.path.join(REPO, "solidspy") + os.sep


@contextlib.contextmanager
def quiet():
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        yield


def attempt(label, fn):
    try:
        with quiet():
            return fn()
    except (CaseTimeout, MemoryError):
        raise
    except Exception as exc:
        raise Violation("%s raised %s: %s" % (label, type(exc).__name__, str(exc)[:200])) from exc


def memory(label, fn):
    """result and the most memory held at one time during the call"""
    gc.collect()
    tracemalloc.start()
    try:
        before = tracemalloc.get_traced_memory()[0]
        tracemalloc.reset_peak()
        out = attempt(label, fn)
        return out, tracemalloc.get_traced_memory()[1] - before
    finally:
        tracemalloc.stop()


def lines(label, fn):
    """lines of the library executed by the call"""
    n = [0]

    def local(frame, event, arg):
        if event == "line":
            n[0] += 1
        return local

    def enter(frame, event, arg):
        return local if frame.f_code.co_filename.startswith(LIB) else None
    old = sys.gettrace()
    sys.settrace(enter)
    try:
        attempt(label, fn)
    finally:
        sys.settrace(old)
    return n[0]


def grows(ctx, label, small, large, ratio, work=True):
    """small, large: callables on models whose sizes have the given ratio"""
    attempt(label, small)                      # imports, caches
    _, m1 = memory(label, small)
    res, m2 = memory(label, large)
    ctx.ok(m2 <= SLACK*ratio*m1 + 400000, "%s: memory grows from %d to %d bytes for a model %.1f times as large"
           % (label, m1, m2, ratio))
    ctx.event("bytes allocated at peak", m1 + m2)
    ctx.high("largest peak (bytes)", m2)
    if m2 > 1e6:
        ctx.high("largest growth of memory against the model", m2/m1/ratio)
    if not work:                               # (its parts are traced on their own)
        return res
    l1, l2 = lines(label, small), lines(label, large)
    ctx.ok(l2 <= SLACK*ratio*max(l1, 20), "%s: %d executed lines become %d for a model %.1f times as large"
           % (label, l1, l2, ratio))
    ctx.event("lines executed", l1 + l2)
    ctx.high("largest growth of work against the model", l2/max(l1, 20)/ratio)
    return res


def stays_sparse(ctx, what, A, entries):
    ctx.ok(sp.issparse(A), "%s is not stored sparse: %s" % (what, type(A).__name__))
    ctx.ok(A.nnz <= entries and len(A.data) <= entries, "%s stores %d entries, the elements have %d"
           % (what, max(A.nnz, len(A.data)), entries))
    ctx.event("sparse matrices judged")


def pipeline(rng, m):
    """the steps of one analysis, prepared one by one"""
    nodes, els = m.tables()
    kw = {} if m.nd == 2 else {"ndof_node": m.nd}
    with quiet():
        op, bc, neq = ass.DME(m.cons, els, **kw)
        K, M = ass.assembler(els, m.mats, nodes, neq, op)
        f = ass.loadasem(m.loads, bc, neq, **kw)
        u = sol.static_sol(K, f)
        U = pos.complete_disp(bc, nodes, u, **kw)
    d = m.data()
    steps = {"eqcounter": lambda: ass.eqcounter(m.cons, **kw),
             "DME": lambda: ass.DME(m.cons, els, **kw),
             "assembler": lambda: ass.assembler(els, m.mats, nodes, neq, op),
             "loadasem": lambda: ass.loadasem(m.loads, bc, neq, **kw),
             "static_sol": lambda: sol.static_sol(K, f),
             "complete_disp": lambda: pos.complete_disp(bc, nodes, u, **kw),
             "energy": lambda: pos.energy(u, K),
             "solids_auto": lambda: solids_auto(d, plot_contours=False)}
    if m.types[0] in (1, 2, 3, 4):
        steps["strain_nodes"] = lambda: pos.strain_nodes(nodes, els, m.mats, U)
        steps["mesh2tri"] = lambda: pos.mesh2tri(nodes, els)
        steps["solids_auto with strains"] = lambda: solids_auto(d, plot_contours=False, compute_strains=True)
    if np.all(m.types == 6):
        steps["stress_truss"] = lambda: pos.stress_truss(nodes, els, m.mats, U)
    return steps


def compare(ctx, rng, a, b, what):
    sa, sb = pipeline(rng, a), pipeline(rng, b)
    ratio = max(len(b.conn)/len(a.conn), b.n/a.n)
    for k in sa:
        res = grows(ctx, "%s of %s" % (k, what), sa[k], sb[k], ratio,
                    k != "solids_auto" and (k != "assembler" or a.nd*a.conn.shape[1] < 10))
        if k == "assembler":
            nd = b.nd*b.conn.shape[1]
            for A, name in zip(res, ("stiffness", "mass")):
                stays_sparse(ctx, "%s of %s" % (name, what), A, len(b.conn)*nd*nd)
    if a.nd == 2:
        with tempfile.TemporaryDirectory() as folder:
            for m, name in ((a, "a"), (b, "b")):
                os.mkdir(os.path.join(folder, name))
                write(rng, os.path.join(folder, name), m)
            small, large = os.path.join(folder, "a"), os.path.join(folder, "b")
            grows(ctx, "solids_GUI of %s" % what, lambda: solids_GUI(plot_contours=False, folder=small),
                  lambda: solids_GUI(plot_contours=False, folder=large), ratio, False)
            grows(ctx, "readin of %s" % what, lambda: pre.readin(small), lambda: pre.readin(large), ratio)
            ta, tb = pre.readin(small), pre.readin(large)
            grows(ctx, "echomod of %s" % what, lambda: pre.echomod(*ta, folder=small),
                  lambda: pre.echomod(*tb, folder=large), ratio)
    ctx.note(model=what, elements=[len(a.conn), len(b.conn)], equations=[int((a.cons == 0).sum()),
                                                                         int((b.cons == 0).sum())])


def meshes(ctx):
    rng = ctx.rng
    name = ["tri3", "quad4", "tri6", "quad9"][ctx.index % 4]
    k1, k2 = {"tri3": (7, 24), "quad4": (7, 24), "tri6": (4, 14), "quad9": (4, 13)}[name]
    k1, k2 = k1 + int(rng.integers(0, 2)), k2 + int(rng.integers(0, 6))
    nmat = int(rng.integers(1, 4))
    a, b = [model.continuum(rng, name, size=(k, k), nmat=nmat, cols=2, holes=False, kind="grid") for k in (k1, k2)]
    for m in (a, b):
        m.loads = gen.loads(rng, m.n, 2, count=m.n//3)
    compare(ctx, rng, a, b, "%s meshes" % name)
    ctx.key(name, a.xy, b.xy)


def members(ctx):
    """long chains of springs, bars, beams"""
    rng = ctx.rng
    t = [6, 8, 5, 7][ctx.index % 4]
    nd = 3 if t > 6 else 2
    out = []
    for n in (60, int(rng.integers(700, 1000))):
        xy = np.column_stack([np.arange(n) + 0.1*rng.random(n), 0.3*(np.arange(n) % 2)])
        conn = [[i, i + 1] for i in range(n - 1)] + ([[i, i + 2] for i in range(n - 2)] if nd == 2 else [])
        cons = np.zeros((n, nd), int)
        cons[[0, 1, n//2, -1]] = -1
        if t == 7:
            cons[:, 0] = -1
        p = [1.0, 0.5] if nd == 2 else [1.0, 0.5, 0.7, 2.0]
        out.append(model.Model(xy, np.array(conn), t, np.array([p]*2), rng.integers(0, 2, len(conn)), cons,
                               gen.loads(rng, n, nd, count=n//3), nd))
    what = {5: "springs", 6: "trusses", 7: "beams", 8: "frames"}[t]
    compare(ctx, rng, *out, what)
    ctx.key(what, out[0].xy, out[1].xy)


def space(ctx):
    """user elements in three dimensions, many freedoms per element"""
    rng = ctx.rng
    import solidspy.uelutil as uel
    name, fn = [("tet4", uel.elast_tet4), ("hex8", uel.elast_hex8)][ctx.index % 2]
    steps = []
    for k in ((3, 2, 2), (8, 7, 6) if name == "hex8" else (6, 5, 5)):
        xy, conn = gen.mesh3d(rng, name, size=k)
        n = len(xy)
        cons = np.zeros((n, 3), int)
        cons[np.argsort(xy[:, 0])[:6]] = -1
        els = np.column_stack([np.arange(len(conn)), np.full(len(conn), 10), np.zeros(len(conn)), conn]).astype(int)
        nodes = np.column_stack([np.arange(n), xy])
        nd = 3*conn.shape[1]
        kw = dict(ndof_node=3, ndof_el_max=nd, ndof_el=lambda t, nd=nd: nd)
        op, bc, neq = ass.DME(cons, els, **kw)
        mats = np.array([[1.0, 0.3, 1.0]])
        steps.append((len(conn), n, {
            "DME": lambda els=els, cons=cons, kw=kw: ass.DME(cons, els, **kw),
            "assembler": lambda els=els, nodes=nodes, neq=neq, op=op: ass.assembler(els, mats, nodes, neq, op, uel=fn)}))
    ratio = max(steps[1][0]/steps[0][0], steps[1][1]/steps[0][1])
    for k in steps[0][2]:
        res = grows(ctx, "%s of %s user elements" % (k, name), steps[0][2][k], steps[1][2][k], ratio)
    for A in res:
        stays_sparse(ctx, "matrix of %s elements" % name, A, steps[1][0]*nd*nd)
    ctx.key(name, steps[0][:2], steps[1][:2], rng.random())
    ctx.note(family=name, elements=[steps[0][0], steps[1][0]])


def cells(rng, n):
    """periodic cell: n x n nodes, images on two sides"""
    d = 2
    ident = np.arange(n*n).reshape(n, n)
    coords = np.array([(i, j) for j in range(n) for i in range(n)], float)
    pairs = [(ident[j, 0], ident[j, -1]) for j in range(n - 1)] + [(ident[0, i], ident[-1, i]) for i in range(n - 1)] \
        + [(ident[0, 0], ident[-1, -1])]
    ref_, ima = [int(a) for a, _ in pairs], [int(b) for _, b in pairs]
    dof = lambda i: [d*i, d*i + 1]
    dr, di = [v for i in ref_ for v in dof(i)], [v for i in ima for v in dof(i)]
    return coords, ref_, ima, dr, di, {i: dof(i) for i in ref_}, {i: dof(i) for i in ima}, d*n*n


def others(ctx):
    """grids, imported tables, fields of tensors, periodic cells"""
    rng = ctx.rng
    k1, k2 = 10, int(rng.integers(35, 50))
    ratio = (k2/k1)**2*1.1
    grows(ctx, "rect_grid", lambda: pre.rect_grid(1, 2, k1, k1), lambda: pre.rect_grid(1, 2, k2, k2), ratio)
    F1, F2 = rng.normal(size=(100, 3)), rng.normal(size=(1500, 3))
    grows(ctx, "principal_dirs", lambda: pos.principal_dirs(F1), lambda: pos.principal_dirs(F2), 15)
    data = []
    for n in (150, 3000):
        pts = rng.normal(size=(n, 3))
        tri = np.array([rng.permutation(n)[:3] for _ in range(n)])
        line = np.column_stack([np.arange(n - 1), np.arange(1, n)])
        data.append((pts, {"triangle": tri, "line": line},
                     {"triangle": {"gmsh:physical": rng.integers(1, 3, n)}, "line": {"gmsh:physical": rng.integers(5, 7, n - 1)}}))
    (p1, c1, d1), (p2, c2, d2) = data
    grows(ctx, "node_writer", lambda: pre.node_writer(p1, {}), lambda: pre.node_writer(p2, {}), 20)
    grows(ctx, "ele_writer", lambda: pre.ele_writer(c1, d1, "triangle", 1, 3, 0, 0),
          lambda: pre.ele_writer(c2, d2, "triangle", 1, 3, 0, 0), 20)
    grows(ctx, "loading", lambda: pre.loading(c1, d1, 5, 1, 1), lambda: pre.loading(c2, d2, 5, 1, 1), 20)
    n1, n2 = np.zeros((150, 5)), np.zeros((3000, 5))
    grows(ctx, "boundary_conditions", lambda: pre.boundary_conditions(c1, d1, 5, n1, -1, 0),
          lambda: pre.boundary_conditions(c2, d2, 5, n2, -1, 0), 20)
    a, b = cells(rng, 8), cells(rng, 34)
    num = []
    for _, _, _, dr, di, _, _, nd in (a, b):
        num.append(attempt("reassign_dof_bloch", lambda: blo.reassign_dof_bloch(nd, di, dr)))
    r = 34**2/8**2
    grows(ctx, "reassign_dof_bloch", lambda: blo.reassign_dof_bloch(a[7], a[4], a[3]),
          lambda: blo.reassign_dof_bloch(b[7], b[4], b[3]), r)
    num = [v[0] if isinstance(v, tuple) else v for v in num]
    k = np.array([0.3, 0.4])
    T = grows(ctx, "bloch_transform_mat",
              lambda: blo.bloch_transform_mat(k, a[0], a[7], a[1], a[2], a[3], a[4], a[5], a[6], num[0]),
              lambda: blo.bloch_transform_mat(k, b[0], b[7], b[1], b[2], b[3], b[4], b[5], b[6], num[1]), r)
    stays_sparse(ctx, "Bloch transformation", T, b[7])
    ctx.key("others", F1, p1)
    ctx.note(parts=["grid", "import", "tensors", "periodic cells"])


def huge(ctx):
    """thousands of nodes, memory only"""
    rng = ctx.rng
    name = ["tri3", "quad4", "tri6", "quad9"][ctx.index % 4]
    k1, k2 = {"tri3": (9, 58), "quad4": (9, 62), "tri6": (5, 33), "quad9": (5, 34)}[name]
    k1, k2 = k1 + int(rng.integers(0, 2)), k2 + int(rng.integers(0, 6))
    a, b = [model.continuum(rng, name, size=(k, k), nmat=2, cols=3, holes=False, kind="grid") for k in (k1, k2)]
    for m in (a, b):
        m.loads = gen.loads(rng, m.n, 2, count=m.n//2)
    sa, sb = pipeline(rng, a), pipeline(rng, b)
    ratio = max(len(b.conn)/len(a.conn), b.n/a.n)
    for k in sa:
        if not k.startswith("solids_auto"):
            grows(ctx, "%s of large %s meshes" % (k, name), sa[k], sb[k], ratio, False)
    field = rng.normal(size=(b.n, 3))
    grows(ctx, "principal_dirs of a large field", lambda: pos.principal_dirs(field[:a.n]),
          lambda: pos.principal_dirs(field), b.n/a.n, False)
    ctx.key(name, a.xy, b.xy)
    ctx.note(family=name, elements=[len(a.conn), len(b.conn)], nodes=[a.n, b.n])


def takes(ctx, label, small, large, ratio):
    """CPU time of this thread: what compiled calls do inside is seen here"""
    attempt(label, small)

    def once(fn):
        gc.collect()
        t = time.thread_time()
        attempt(label, fn)
        return time.thread_time() - t
    t1 = min(once(small) for _ in range(3))
    t2 = once(large)
    for _ in range(3):
        if t2 <= max(0.3, 3.5*ratio*t1):
            break
        t1, t2 = max(t1, once(small)), min(t2, once(large))
    ctx.ok(t2 <= max(0.3, 3.5*ratio*t1), "%s: %.3g s of processor time become %.3g s for a model %.1f times as large"
           % (label, t1, t2, ratio))
    ctx.event("timed calls")
    if t2 > 0.3:
        ctx.event("timed calls over 0.3 s")
        ctx.high("largest growth of processor time against the model", t2/t1/ratio)


def timed(ctx):
    """thousands of members, triangles, cells with many images, tables of many rows"""
    rng = ctx.rng
    n1, n2 = 700, int(rng.integers(10500, 12000))
    part = ["members", "triangles", "cells", "tables"][ctx.index % 4]
    ratio = n2/n1
    if part == "members":
        models = []
        for n in (n1, n2):
            xy = np.column_stack([np.arange(n) + 0.1*rng.random(n), 0.3*(np.arange(n) % 2)])
            conn = np.array([[i, i + 1] for i in range(n - 1)])
            cons = np.where(rng.random((n, 2)) < 0.3, -1, 0)
            models.append(model.Model(xy, conn, 6, np.array([[1.0, 0.5]]*(n//4)), rng.integers(0, n//4, n - 1), cons,
                                      gen.loads(rng, n, 2, count=n), 2))
        steps = []
        for m in models:
            nodes, els = m.tables()
            op, bc, neq = ass.DME(m.cons, els)
            u = rng.normal(size=neq)
            U = pos.complete_disp(bc, nodes, u)
            steps.append({"eqcounter": lambda m=m: ass.eqcounter(m.cons), "DME": lambda m=m, els=els: ass.DME(m.cons, els),
                          "assembler": lambda m=m, els=els, nodes=nodes, neq=neq, op=op:
                          ass.assembler(els, m.mats, nodes, neq, op),
                          "loadasem": lambda m=m, bc=bc, neq=neq: ass.loadasem(m.loads, bc, neq),
                          "complete_disp": lambda bc=bc, nodes=nodes, u=u: pos.complete_disp(bc, nodes, u),
                          "stress_truss": lambda m=m, els=els, nodes=nodes, U=U: pos.stress_truss(nodes, els, m.mats, U)})
    elif part == "triangles":
        steps = []
        for n in (n1, n2):
            w = 4                              # long strips of triangles, strictly proportional
            x, y, els = pre.rect_grid(n/4.0, 4.0, n//8, w)
            nodes = np.column_stack([np.arange(len(x)), x, y, np.zeros((len(x), 2))])
            tri = np.concatenate([els[:, [0, 1, 2, 3, 4, 5]], els[:, [0, 1, 2, 3, 5, 6]]])
            tri[:, 1] = 3
            U, mats = rng.normal(size=(len(x), 2)), np.array([[1.0, 0.3]])
            steps.append({"strain_nodes": lambda nodes=nodes, tri=tri, mats=mats, U=U: pos.strain_nodes(nodes, tri, mats, U),
                          "mesh2tri": lambda nodes=nodes, tri=tri: pos.mesh2tri(nodes, tri),
                          "rect_grid": lambda n=n: pre.rect_grid(1.0, 1.0, n, w)})
    elif part == "cells":
        steps = []
        for n in (n1, n2):
            p = rng.permutation(2*n)
            nr, ni = p[:n].tolist(), p[n:].tolist()
            dof = lambda i: [2*i, 2*i + 1]
            dr, di = [v for i in nr for v in dof(i)], [v for i in ni for v in dof(i)]
            xy = rng.normal(size=(2*n, 2))
            num = attempt("reassign_dof_bloch", lambda: blo.reassign_dof_bloch(4*n, di, dr))
            args = (np.array([0.3, 0.2]), xy, 4*n, nr, ni, dr, di, {i: dof(i) for i in nr}, {i: dof(i) for i in ni}, num)
            steps.append({"reassign_dof_bloch": lambda n=n, di=di, dr=dr: blo.reassign_dof_bloch(4*n, di, dr),
                          "bloch_transform_mat": lambda args=args: blo.bloch_transform_mat(*args)})
    else:
        steps = []
        folder = tempfile.mkdtemp()
        for n in (n1, n2):
            n *= 2
            sub = os.path.join(folder, str(n))
            os.mkdir(sub)
            tables = (np.column_stack([np.arange(n), rng.normal(size=(n, 4))]), rng.random((n//4, 2)),
                      rng.integers(0, n, (n, 7)), np.column_stack([np.arange(n), rng.normal(size=(n, 2))]))
            for t, name in zip(tables, ("nodes", "mater", "eles", "loads")):
                np.savetxt(os.path.join(sub, name + ".txt"), t, fmt="%d" if name == "eles" else "%.9g")
            cells_ = {"triangle": rng.integers(0, n, (n, 3)), "line": np.column_stack([np.arange(n - 1), np.arange(1, n)])}
            data = {"triangle": {"gmsh:physical": rng.integers(1, 3, n)},
                    "line": {"gmsh:physical": rng.integers(5, 7, n - 1)}}
            F = rng.normal(size=(n, 3))
            N = np.zeros((n, 5))
            steps.append({"readin": lambda sub=sub: pre.readin(sub),
                          "echomod": lambda sub=sub, tables=tables: pre.echomod(*tables, folder=sub),
                          "ele_writer": lambda c=cells_, d=data: pre.ele_writer(c, d, "triangle", 1, 3, 0, 0),
                          "loading": lambda c=cells_, d=data: pre.loading(c, d, 5, 1, 1),
                          "boundary_conditions": lambda c=cells_, d=data, N=N: pre.boundary_conditions(c, d, 5, N, -1, 0),
                          "node_writer": lambda F=F: pre.node_writer(F, {}),
                          "principal_dirs": lambda F=F: pos.principal_dirs(F)})
    for k in steps[0]:
        takes(ctx, "%s (%s)" % (k, part), steps[0][k], steps[1][k], ratio)
    if part == "tables":
        shutil.rmtree(folder, ignore_errors=True)
    ctx.key(part, n2, rng.random())
    ctx.note(part=part, sizes=[n1, n2])


def held(label, make, count):
    """bytes still held after so many calls on fresh arguments, everything they returned being dropped"""
    for _ in range(count):
        fn = make()
        attempt(label, fn)
        del fn
    if "matplotlib.pyplot" in sys.modules:
        sys.modules["matplotlib.pyplot"].close("all")
    gc.collect()
    return tracemalloc.get_traced_memory()[0]


def releases(ctx, label, make, count, allowed, blocks=4):
    """make() prepares a call on fresh arguments; block after block, nothing of them may stay behind"""
    gc.collect()
    tracemalloc.start()
    try:
        at = [held(label, make, count)]
        for _ in range(blocks):
            at.append(held(label, make, count))
            if at[-1] - at[-2] <= allowed*count:
                break
        kept = min(np.diff(at))/count
    finally:
        tracemalloc.stop()
    ctx.ok(kept <= allowed, "%s: every call leaves %d bytes behind after its results are dropped" % (label, kept))
    ctx.high("bytes held after a call", kept)
    ctx.event("calls judged for what they leave behind", count*len(at))


def retained(ctx):
    """long-running use: calls on ever new models, whose results are dropped"""
    rng = ctx.rng
    part = ["continuum", "members", "elements", "files"][ctx.index % 4]
    if part in ("continuum", "members"):
        name = ["tri3", "quad4", "tri6", "quad9"][int(rng.integers(4))]
        k = {"tri3": 9, "quad4": 9, "tri6": 5, "quad9": 5}[name]

        def fresh():
            if part == "continuum":
                m = model.continuum(rng, name, size=(k, k), nmat=2, cols=3, holes=False, kind="grid")
                m.loads = gen.loads(rng, m.n, 2, count=m.n//2)
            else:
                n = 120
                xy = np.column_stack([np.arange(n) + 0.1*rng.random(n), 0.3*(np.arange(n) % 2) + 0.1*rng.random(n)])
                conn = np.array([[i, i + 1] for i in range(n - 1)] + [[i, i + 2] for i in range(n - 2)])
                cons = np.zeros((n, 2), int)
                cons[[0, 1, -1]] = -1
                m = model.Model(xy, conn, 6, rng.uniform(1, 2, (3, 2)), rng.integers(0, 3, len(conn)), cons,
                                gen.loads(rng, n, 2, count=n), 2)
            return m
        first = pipeline(rng, fresh())
        for step in first:
            if part == "continuum" and step.startswith("solids_auto"):
                continue

            def make(step=step):
                return pipeline(rng, fresh())[step]
            if step in ("assembler", "strain_nodes", "stress_truss", "DME", "loadasem", "complete_disp", "solids_auto"):
                releases(ctx, "%s of %s models" % (step, part), make, 4, 2000)
        m = fresh()
        nodes, els = m.tables()
        op, bc, neq = ass.DME(m.cons, els)
        mats = np.array(m.mats)

        def again():                           # the same model with other materials
            mats[:, 0] = rng.uniform(1, 2, len(mats))
            return lambda: (ass.assembler(els, mats, nodes, neq, op), ass.assembler(els, mats.copy(), nodes, neq, op, sparse=False))
        releases(ctx, "assembler of one %s model with ever new materials" % part, again, 4, 2000)
    elif part == "elements":
        from vlib import calls
        todo = {}
        for c in calls.catalogue(rng):
            if c.fn.__module__.split(".")[-1] in ("uelutil", "femutil", "gaussutil", "solutil", "blochutil", "postprocesor"):
                todo.setdefault(c.label, c)

        def other(x):
            if isinstance(x, float):
                return x*rng.uniform(0.9, 1.0)
            if isinstance(x, np.ndarray) and x.dtype.kind == "f" and not np.array_equal(x, np.round(x)):
                return x*rng.uniform(0.9, 1.0)
            if sp.issparse(x):
                return x*rng.uniform(0.9, 1.0)
            if isinstance(x, (tuple, list)):
                return type(x)(other(v) for v in x)
            return calls.copy_args(x)
        for label, c in todo.items():
            releases(ctx, label, lambda c=c: (lambda a: lambda: c.fn(*a, **c.kwargs))(other(c.args)), 150, 60)
    else:
        with tempfile.TemporaryDirectory() as folder:
            m = model.continuum(rng, "quad4", size=(8, 8), nmat=2, cols=2, holes=False, kind="grid")
            nodes, els = m.tables()

            def make(fn):
                def prepare():
                    m.xy = m.xy*rng.uniform(0.9, 1.1)
                    write(rng, folder, m)
                    return fn
                return prepare
            os.mkdir(os.path.join(folder, "out"))
            releases(ctx, "readin", make(lambda: pre.readin(folder)), 5, 2000)
            releases(ctx, "solids_GUI", make(lambda: solids_GUI(plot_contours=False, folder=folder)), 3, 2000)
            releases(ctx, "echomod", lambda: (lambda t: lambda: pre.echomod(*t, folder=os.path.join(folder, "out")))(
                (nodes*rng.random(), m.mats, els, m.loads)), 5, 2000)
            releases(ctx, "rect_grid", lambda: (lambda v: lambda: pre.rect_grid(v, 1.0, 12, 12))(rng.random() + 1), 5, 1000)
            releases(ctx, "principal_dirs", lambda: (lambda v: lambda: pos.principal_dirs(v))(rng.normal(size=(60, 3))), 5, 1000)
            releases(ctx, "mesh2tri", lambda: (lambda v: lambda: pos.mesh2tri(v, els))(nodes*rng.random()), 5, 1000)
            x, y, fine = pre.rect_grid(1.0, 1.0, 40, 40)
            grid = np.column_stack([np.arange(len(x)), x, y, np.zeros((len(x), 2))])
            field = rng.normal(size=len(x))       # (the plotting library keeps some 6 kB of every figure itself)
            releases(ctx, "plot_node_field", lambda: (lambda v: lambda: (pos.plot_node_field(v, grid, fine),
                     sys.modules["matplotlib.pyplot"].close("all")))(field*rng.random()), 3, 30000)
    ctx.key("retained", part, rng.random())
    ctx.note(part=part)


FAMILIES = [Family(retained, 4, 80), Family(timed, 4, 40), Family(huge, 2, 60), Family(meshes, 4, 120), Family(members, 4, 120), Family(space, 2, 60), Family(others, 2, 60)]
