"""A catalogue of calls over the whole public interface, for history monitors."""
import copy
import os
import types

import numpy as np
import scipy.sparse as sp

import solidspy.assemutil as ass
import solidspy.blochutil as blo
import solidspy.femutil as fem
import solidspy.gaussutil as gau
import solidspy.postprocesor as pos
import solidspy.preprocesor as pre
import solidspy.solutil as sol
import solidspy.uelutil as uel
from solidspy.solids_GUI import solids_GUI, solids_auto
from vlib import gen, model, ref


class Call:
    def __init__(self, fn, *args, changes=(), tied=False, **kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs
        self.changes, self.tied = set(changes), tied    # documented exceptions
        self.label = getattr(fn, "__name__", str(fn))

    def clone(self):
        c = Call(self.fn, *copy_args(self.args), **copy_args(self.kwargs))
        c.changes, c.tied = self.changes, self.tied
        return c

    def run(self):
        return self.fn(*self.args, **self.kwargs)


def copy_args(x):
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType)):
        return x
    if isinstance(x, tuple):
        return tuple(copy_args(v) for v in x)
    if isinstance(x, list):
        return [copy_args(v) for v in x]
    if isinstance(x, dict):
        return {k: copy_args(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        return np.array(x)
    if sp.issparse(x):
        return x.copy()
    return copy.deepcopy(x)


def flat(x, path="result"):
    """(path, value) leaves of a result or argument"""
    if isinstance(x, dict):
        for k in x:
            yield from flat(x[k], "%s[%r]" % (path, k))
    elif isinstance(x, (list, tuple)):
        if x and all(isinstance(v, (int, float, np.integer, np.floating)) for v in x):
            yield path, np.array(x, float)
        else:
            yield path + ".len", np.array(float(len(x)))
            for i, v in enumerate(x):
                yield from flat(v, "%s[%d]" % (path, i))
    elif sp.issparse(x):
        yield path, x.toarray()
    elif hasattr(x, "triangles"):
        yield path + ".x", np.asarray(x.x)
        yield path + ".y", np.asarray(x.y)
        yield path + ".triangles", np.asarray(x.triangles)
    elif isinstance(x, (types.FunctionType, type(None), str)):
        yield path, repr(getattr(x, "__name__", x))
    else:
        yield path, np.asarray(x)


def differ(a, b, tol=0.0):
    """first difference between two results, or None"""
    fa, fb = list(flat(a)), list(flat(b))
    if [p for p, _ in fa] != [p for p, _ in fb]:
        return "structure"
    for (p, x), (_, y) in zip(fa, fb):
        if isinstance(x, str) or isinstance(y, str):
            if x != y:
                return "%s: %s / %s" % (p, x, y)
            continue
        if x.shape != y.shape:
            return "%s: shape %s / %s" % (p, x.shape, y.shape)
        if x.dtype == object or y.dtype == object:
            if repr(x) != repr(y):
                return "%s: %r / %r" % (p, x, y)
            continue
        if x.size == 0 or np.array_equal(x, y, equal_nan=x.dtype.kind in "fc" and y.dtype.kind in "fc"):
            continue
        s = np.nanmax(np.abs(x)) if np.isfinite(x).any() else 0.0
        nx, ny = np.isnan(x), np.isnan(y)
        if not np.array_equal(nx, ny) or np.nanmax(np.abs(x - y)) > tol*s:
            return "%s: %s / %s" % (p, np.array2string(x.ravel()[:6], precision=6), np.array2string(y.ravel()[:6], precision=6))
    return None


def arrays(x):
    """every writeable numeric buffer reachable in a value"""
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fci" and x.size:
            yield x
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v)
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays(v)
    elif sp.issparse(x):
        for n in ("data", "indices", "indptr", "row", "col"):
            if hasattr(x, n):
                yield getattr(x, n)
    elif hasattr(x, "triangles"):
        yield from arrays([x.x, x.y, x.triangles])


def spoil(x):
    """overwrite everything a caller could overwrite"""
    n = 0
    for a in arrays(x):
        if a.flags.writeable:
            a[...] = 77
            n += 1

    def lists(v):
        if isinstance(v, list):
            for w in v:
                lists(w)
            if v and not isinstance(v[0], (list, np.ndarray)):
                v[:] = [77]*len(v)
                return 1
        elif isinstance(v, tuple):
            for w in v:
                lists(w)
        return 0
    lists(x)
    return n


def ndof18(t):
    return 18


def ndof_quad8(t):
    return 16


SHAPES = {"tri3": fem.shape_tri3, "tri6": fem.shape_tri6, "quad4": fem.shape_quad4, "quad8": fem.shape_quad8,
          "quad9": fem.shape_quad9, "tet4": fem.shape_tet4, "hex8": fem.shape_hex8}
ELS = {"tri3": uel.elast_tri3, "tri6": uel.elast_tri6, "quad4": uel.elast_quad4, "quad8": uel.elast_quad8,
       "quad9": uel.elast_quad9, "tet4": uel.elast_tet4, "hex8": uel.elast_hex8}
STRAIN = {"tri3": fem.str_el3, "tri6": fem.str_el6, "quad4": fem.str_el4, "quad9": fem.str_el9}


def model_calls(rng, m):
    """the steps of one analysis, each as an independent call"""
    nodes, els = m.tables()
    kw = {} if m.nd == 2 else {"ndof_node": m.nd}
    op, bc, neq = ass.DME(m.cons, els, **kw)
    K, _ = ass.assembler(els, m.mats, nodes, neq, op)
    f = ass.loadasem(m.loads, bc, neq, **kw)
    u = sol.static_sol(K, f)
    U = pos.complete_disp(bc, nodes, u, **kw)
    e = int(rng.integers(len(els)))
    out = [Call(ass.DME, m.cons, els, **kw), Call(ass.eqcounter, m.cons, ndof_node=m.nd),
           Call(ass.assembler, els, m.mats, nodes, neq, op), Call(ass.assembler, els, m.mats, nodes, neq, op, sparse=False),
           Call(ass.sparse_assem, els, m.mats, nodes, neq, op), Call(ass.dense_assem, els, m.mats, nodes, neq, op),
           Call(ass.retriever, els, m.mats, nodes, e),
           Call(ass.loadasem, m.loads, bc, neq, **kw), Call(sol.static_sol, K, f), Call(sol.static_sol, K.toarray(), f),
           Call(pos.complete_disp, bc, nodes, u, **kw), Call(pos.energy, u, K), Call(pos.energy, u, K.toarray()),
           Call(solids_auto, m.data(), plot_contours=False)]
    if m.types[0] in (1, 2, 3, 4):
        out += [Call(pos.strain_nodes, nodes, els, m.mats, U), Call(pos.mesh2tri, nodes, els),
                Call(solids_auto, m.data(), plot_contours=False, compute_strains=True)]
    if np.all(m.types == 6):
        out.append(Call(pos.stress_truss, nodes, els, m.mats, U))
    return out


def catalogue(rng, size=None):
    """calls with random arguments over every module"""
    c = []
    for n in rng.permutation(np.arange(2, 11))[:3]:
        c.append(Call(gau.gauss_1d, int(n)))
    for n, d in ((int(rng.integers(2, 7)), 2), (int(rng.integers(2, 4)), 3), (2, 2), (3, 2), (2, 3)):
        c.append(Call(gau.gauss_nd, n, ndim=d))
    c += [Call(gau.gauss_tri, order=int(n)) for n in rng.permutation([1, 2, 3, 7])[:2]]
    c += [Call(gau.gauss_tet, int(n)) for n in rng.permutation([1, 2, 3])[:2]]
    for name, sh in SHAPES.items():
        d = ref.ELEMS[name]["dim"]
        pt = rng.uniform(0.05, 0.3, d)
        c.append(Call(sh, *[float(v) for v in pt]))
        xy, _ = gen.coords(rng, name, mode="distorted")
        E, nu, rho = gen.young(rng), gen.poisson(rng), gen.density(rng)
        par = gen.pick(rng, list, tuple, np.array)((E, nu, rho))
        c.append(Call(ELS[name], xy, par))
        c.append(Call(ELS[name], xy*(1 + 1e-3*rng.random()), par))
        diff = fem.elast_diff_2d if d == 2 else fem.elast_diff_3d
        c.append(Call(diff, *[float(v) for v in pt], xy, sh))
        c.append(Call(fem.jacoper, np.array(ref.basis(name, pt)[1]), xy))
        if name in STRAIN:
            c.append(Call(STRAIN[name], xy, rng.normal(size=xy.size)))
    ax, _ = gen.axi_coords(rng, "distorted")
    c += [Call(uel.elast_axi_quad9, ax, [E, nu, rho]), Call(fem.elast_diff_axi, 0.1, 0.2, ax, fem.shape_quad9)]
    c += [Call(f, [E, nu]) for f in (fem.umat, fem.elast_mat, fem.elast_mat_2d, fem.elast_mat_axi)]
    c += [Call(fem.eletype, int(t)) for t in rng.integers(1, 9, 2)]
    seg = rng.normal(size=(2, 2))
    c += [Call(uel.spring, seg, float(E)), Call(uel.truss2D, seg, [E, 0.3]), Call(uel.beam2D, seg, [E, 0.2, 0.4]),
          Call(uel.beam2DU, seg, np.array([E, 0.2]))]
    T = rng.normal(size=(2, 2))
    c += [Call(pos.eigvals, T + T.T), Call(pos.principal_dirs, rng.normal(size=(int(rng.integers(1, 6)), 3))),
          Call(pos.eigvals, np.zeros((2, 2)))]
    c.append(Call(pre.rect_grid, float(rng.uniform(1, 4)), float(rng.uniform(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 5))))
    pts = rng.normal(size=(9, 3))
    cells = {"triangle": np.array([[0, 1, 2], [2, 3, 4], [4, 5, 6]]), "line": np.array([[0, 1], [1, 2], [5, 6]])}
    data = {"triangle": {"gmsh:physical": np.array([1, 2, 1])}, "line": {"gmsh:physical": np.array([7, 7, 8])}}
    c += [Call(pre.node_writer, pts, {}), Call(pre.ele_writer, cells, data, "triangle", 1, 3, 0, int(rng.integers(5))),
          Call(pre.loading, cells, data, 7, 1.0, float(rng.normal())),
          Call(pre.boundary_conditions, cells, data, 7, np.zeros((9, 5)), -1, 0, changes={3}, tied=True)]
    n = 4
    c += [Call(blo.reassign_dof_bloch, 2*n, [2, 3, 4, 5, 6, 7], [0, 1, 0, 1, 0, 1]),
          Call(blo.bloch_transform_mat, rng.normal(size=2), rng.normal(size=(n, 2)), 2*n, [0, 0, 0], [1, 2, 3],
               [0, 1]*3, [2, 3, 4, 5, 6, 7], {0: [0, 1]}, {1: [2, 3], 2: [4, 5], 3: [6, 7]}, [0, 1]*4)]
    for kind in gen.pick(rng, ("continuum", "truss"), ("continuum", "frame"), ("continuum", "line")):
        m, _ = model.any_model(rng, (kind,))
        c += model_calls(rng, m)
        if kind == "continuum":                # the same tables with one number changed
            m2 = m.reorder(mats=np.array(m.mats), xy=np.array(m.xy), loads=np.array(m.loads))
            which = rng.integers(3)
            if which == 0:
                m2.mats[-1, 0] *= 1.5
            elif which == 1:
                m2.loads[-1, 1:] += 1.0
            else:
                m2.xy = m2.xy*1.01
            c += model_calls(rng, m2)
    n = int(rng.integers(4, 9))                # systems alike in pattern, diagonal and leading entries
    A = np.diag(rng.uniform(3, 4, n)) - np.diag(rng.uniform(0.5, 1, n - 1), 1)
    A = np.tril(A.T) + np.triu(A, 1)
    b = rng.normal(size=n)
    for k in range(3):
        c += [Call(sol.static_sol, A, b), Call(sol.static_sol, sp.csr_matrix(A), b)]
        A = np.array(A)
        i = n - 2 - k
        A[i, i + 1] = A[i + 1, i] = A[i, i + 1]*0.5
    xy, conn = gen.mesh2d(rng, "quad8", (1, 2))
    els = np.column_stack([np.arange(len(conn)), np.full(len(conn), 10), 0*conn[:, 0], conn]).astype(int)
    nodes = np.column_stack([np.arange(len(xy)), xy])
    op, bc, neq = ass.DME(np.zeros((len(xy), 2), int), els, ndof_el_max=16, ndof_el=ndof_quad8)
    c += [Call(ass.DME, np.zeros((len(xy), 2), int), els, ndof_el_max=16, ndof_el=ndof_quad8),
          Call(ass.assembler, els, np.array([[1., .3, 1.]]), nodes, neq, op, uel=uel.elast_quad8)]
    c = [c[i] for i in rng.permutation(len(c))]
    return c[:size] if size else c


if __name__ == "__main__":                     # fresh process: run pickled calls, pickle results
    import contextlib
    import io
    import pickle
    import sys
    with open(sys.argv[1], "rb") as f:
        todo = pickle.load(f)
    out = []
    with contextlib.redirect_stdout(io.StringIO()):
        for fn, args, kwargs in todo:
            out.append([(p, v) for p, v in flat(fn(*args, **kwargs))])
    with open(sys.argv[2], "wb") as f:
        pickle.dump(out, f)
