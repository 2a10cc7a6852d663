"""Workload generators: elements, meshes, members, materials, containers."""
import itertools

import numpy as np
from scipy.spatial import Delaunay

from vlib import ref


# -- scalars and containers --------------------------------------------------
def pick(rng, *options):
    return options[int(rng.integers(len(options)))]


def log_uniform(rng, lo, hi):
    return float(10**rng.uniform(np.log10(lo), np.log10(hi)))


def young(rng):
    k = rng.integers(6)
    if rng.random() < 0.02:                    # also the modulus and the ratio of Poisson may be the same number
        return 0.3
    if k == 0:
        return 1.0
    if k == 1:
        return float(rng.integers(1, 10))
    if k == 2:
        return 2.1e11
    return log_uniform(rng, 1e-4, 1e12)


def poisson(rng, hard=False):
    k = rng.integers(8)
    if k == 0:
        return 0.0
    if k == 1:
        return float(rng.uniform(-0.9, -0.05))
    if k == 2:
        return 0.49
    if k == 3:
        return 0.3
    if k == 4 and hard:
        return 0.4999
    return float(rng.uniform(0.02, 0.45))


def density(rng):
    return pick(rng, 1.0, 7850.0, float(rng.uniform(0.1, 9)), log_uniform(rng, 1e-6, 1e6),
                float(rng.integers(2, 9)))


def container(rng, vals, kinds=("list", "tuple", "array")):
    """the same numbers as list, tuple, array (maybe read-only, or a row of a table)"""
    kind = pick(rng, *kinds)
    if kind == "list":
        return list(vals)
    if kind == "tuple":
        return tuple(vals)
    a = np.array(vals, float)
    k = rng.integers(3)
    if k == 0:
        a.flags.writeable = False
    elif k == 1:
        big = np.vstack([a + 1, a, a*3])
        a = big[1]
    return a


def dress(rng, a, ints=True):
    """same values in another memory layout / admissible dtype"""
    a = np.asarray(a)
    k = int(rng.integers(6))
    if k == 0:
        b = np.asfortranarray(a)
    elif k == 1:
        b = np.empty(tuple(2*n for n in a.shape), a.dtype)
        b.fill(7)
        b = b[tuple(slice(None, None, 2) for _ in a.shape)]
        b[...] = a
    elif k == 2:
        b = a.copy()
        b.flags.writeable = False
    elif k == 3 and a.dtype.kind == "f" and ints and a.size and np.all(a == np.round(a)) \
            and np.abs(a).max() < 2**31:
        b = a.astype(int)
    elif k == 4 and a.dtype.kind == "i" and a.size and np.abs(a).max() < 2**30:
        b = a.astype(np.int32)
    else:
        b = a.copy()
    return b


def rot2(t):
    c, s = np.cos(t), np.sin(t)
    return np.array([[c, -s], [s, c]])


def rot(rng, dim):
    if dim == 2:
        return rot2(pick(rng, rng.uniform(0, 2*np.pi), np.pi/2*rng.integers(4), np.pi/4))
    q = np.linalg.qr(rng.normal(size=(3, 3)))[0]
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def affine(rng, dim, aspect=4.0):
    """well-conditioned orientation-preserving linear map"""
    S = np.diag(np.exp(rng.uniform(-0.5*np.log(aspect), 0.5*np.log(aspect), dim)))
    return rot(rng, dim) @ S @ rot(rng, dim)


def scale(rng, lo=1e-6, hi=1e6):
    if rng.random() < 0.08:                    # from atoms to planets in metres
        lo, hi = min(lo, 1e-10), max(hi, 1e8)
        return pick(rng, lo, hi, log_uniform(rng, lo, hi))
    return pick(rng, 1.0, 1.0, log_uniform(rng, lo, hi), 1e-3, 1000.0)


# -- single elements ---------------------------------------------------------
def coords(rng, name, mode=None, size=None, offset=True):
    """node coordinates of an admissible element; returns (coord, mode)

    modes: affine, distorted (straight edges), curved, integer (affine or
    distorted on an integer lattice, integer dtype)"""
    e = ref.ELEMS[name]
    dim = e["dim"]
    X = np.array(e["nodes"], float)
    if mode is None:
        mode = pick(rng, "affine", "distorted", "curved", "integer")
    if size is None:
        size = scale(rng)
    # most elements are compact, some are long and thin
    aspect = 4.0 if rng.random() < 0.85 else log_uniform(rng, 4.0, 400.0)
    # some are almost, but not quite, of a special shape
    near = 10.0**-rng.uniform(1.5, 6.5) if rng.random() < 0.2 else 1.0
    plain = near < 1 and rng.random() < 0.5
    for _ in range(200):
        c = X.copy()
        ncorn = {"tri6": 3, "quad8": 4, "quad9": 4}.get(name, len(X))
        if mode == "integer":
            c = X*2
            if name in ("quad4", "hex8") and rng.random() < 0.5:
                c = c + rng.integers(0, 2, c.shape)
            A = rng.integers(-3, 4, (dim, dim))
            c = c @ A.T + rng.integers(-5, 6, dim)
            c = np.round(c).astype(int)
            size = 1
        else:
            if mode in ("distorted", "curved"):
                corner = X[:ncorn] + rng.uniform(-0.18, 0.18, (ncorn, dim))*(
                    2 if e["dom"] == "box" else 1)*(near if rng.random() < 0.8 else 1.0)
                c[:ncorn] = corner
                if ncorn < len(X):
                    base = {"tri6": "tri3"}.get(name, "quad4")
                    for k in range(ncorn, len(X)):
                        c[k] = ref.basis(base, X[k])[0] @ corner
            if mode == "curved" and ncorn < len(X):
                c[ncorn:] += rng.uniform(-0.08, 0.08, c[ncorn:].shape)*near
            if aspect > 4:
                S = np.ones(dim)
                S[rng.permutation(dim)[:int(rng.integers(1, dim))]] = 1/aspect
                c = c @ (rot(rng, dim) @ np.diag(S)).T*size
            elif plain:
                c = c*rng.uniform(0.4, 1.0, dim)*size
            else:
                c = c @ affine(rng, dim).T*size
            if offset:
                c = c + rng.uniform(-1, 1, dim)*size*pick(rng, 0, 1, 10, 1000)
        if offset and rng.random() < 0.1:      # a node at the origin
            c = c - c[0 if rng.random() < 0.5 else int(rng.integers(len(c)))]
        cf = np.asarray(c, float)
        lo, mean, hi = ref.min_det(name, cf)
        size_ = np.ptp(cf, axis=0).max()
        if lo > 0.08*hi and mean > 1e-3*size_**dim/max(1, aspect/4)**(dim - 1):
            return c, mode
    raise RuntimeError("no admissible element generated")


def axi_coords(rng, mode=None, size=None):
    """a 9-node element in the half plane r >= 0"""
    c, mode = coords(rng, "quad9", mode, size, offset=False)
    c = c.copy()
    L = np.ptp(c[:, 0])
    gap = pick(rng, 0.05, 0.3, 1.0, 10.0)
    if rng.random() < 0.15:                    # touching the axis of revolution, with an edge or at a point
        flat = rng.random() < 0.5
        a = (np.array(ref.ELEMS["quad9"]["nodes"]) + 1)*(rng.integers(1, 5, 2) if mode == "integer" else
                                                         rng.uniform(0.2, 1, 2)*np.ptp(c)) if flat else c
        a = a - [a[:, 0].min(), a[0, 1] if flat else 0]
        if mode == "integer":
            a = np.round(a).astype(int)
        af = np.asarray(a, float)
        if min(ref.basis("quad9", p)[0] @ af[:, 0] for p in ref.full_rule("quad9")[0]) > 0.02*np.ptp(af[:, 0]):
            return a, mode
    if mode == "integer":
        gap = max(1, int(np.ceil(gap)))
        c[:, 0] += gap - c[:, 0].min()
    else:
        c[:, 0] += gap*L - c[:, 0].min()
    return c, mode


def params(rng, nmat=3):
    """(E, nu[, rho]) as some container, with the values"""
    E, nu, rho = young(rng), poisson(rng), density(rng)
    vals = [E, nu, rho][:nmat]
    return container(rng, vals), E, nu, (rho if nmat == 3 else 1.0)


# -- meshes --------------------------------------------------------------------
def _edges(conn, nc):
    """boundary and interior edges from corner connectivity"""
    count = {}
    for el in conn:
        for i in range(nc):
            a, b = int(el[i]), int(el[(i + 1) % nc])
            count.setdefault((min(a, b), max(a, b)), []).append((a, b))
    return count


def _largest_edge_component(conn, nc):
    edges = {}
    for i, el in enumerate(conn):
        for k in range(nc):
            edges.setdefault(frozenset((int(el[k]), int(el[(k + 1) % nc]))), []).append(i)
    adj = [set() for _ in conn]
    for els in edges.values():
        for a, b in itertools.combinations(els, 2):
            adj[a].add(b)
            adj[b].add(a)
    seen, best = set(), []
    for s in range(len(conn)):
        if s in seen:
            continue
        comp, todo = [], [s]
        seen.add(s)
        while todo:
            x = todo.pop()
            comp.append(x)
            for y in adj[x]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        if len(comp) > len(best):
            best = comp
    return conn[np.sort(best)]


def _compact(xy, conn):
    used = np.unique(conn)
    new = -np.ones(len(xy), int)
    new[used] = np.arange(len(used))
    return xy[used], new[conn]


def _tri_area(xy, c):
    a, b, d = xy[c[:, 0]], xy[c[:, 1]], xy[c[:, 2]]
    return 0.5*((b[:, 0] - a[:, 0])*(d[:, 1] - a[:, 1]) - (b[:, 1] - a[:, 1])*(d[:, 0] - a[:, 0]))


def grid(nx, ny, jitter, rng):
    h = 1.0/max(nx, ny)
    x, y = np.meshgrid(np.arange(nx + 1)*h, np.arange(ny + 1)*h)
    xy = np.column_stack([x.ravel(), y.ravel()])
    w, t = nx*h, ny*h
    j = rng.uniform(-jitter*h, jitter*h, xy.shape)
    j[(xy[:, 0] == 0) | np.isclose(xy[:, 0], w), 0] = 0
    j[(xy[:, 1] == 0) | np.isclose(xy[:, 1], t), 1] = 0
    quads = []
    for r in range(ny):
        for c in range(nx):
            a = r*(nx + 1) + c
            quads.append([a, a + 1, a + nx + 2, a + nx + 1])
    return xy + j, np.array(quads)


def elevate(rng, xy, conn, name, curved=0.0):
    """add mid-side (and centre) nodes"""
    nc = conn.shape[1]
    xy = [tuple(p) for p in xy]
    mids = {}
    out = []
    for el in conn:
        row = list(el)
        for i in range(nc):
            a, b = int(el[i]), int(el[(i + 1) % nc])
            k = (min(a, b), max(a, b))
            if k not in mids:
                p, q = np.array(xy[a]), np.array(xy[b])
                m = 0.5*(p + q)
                if curved:
                    m = m + rng.uniform(-curved, curved, 2)*np.hypot(*(q - p))
                mids[k] = len(xy)
                xy.append(tuple(m))
            row.append(mids[k])
        if name == "quad9":
            m = np.mean([xy[i] for i in row[4:8]], axis=0)
            row.append(len(xy))
            xy.append(tuple(m))
        out.append(row)
    return np.array(xy), np.array(out)


def mesh2d(rng, name, size=None, kind=None, curved=None, shuffle=True, scl=None, holes=None,
           place=True):
    """returns (xy, conn): an admissible, edge-connected, irregular mesh"""
    tri = name.startswith("tri")
    near = 10.0**-rng.uniform(1.5, 6.5) if rng.random() < 0.2 else 1.0
    plain = near < 1 and rng.random() < 0.5
    for _ in range(100):
        k = kind or pick(rng, "grid", "jitter", "warp", "delaunay" if tri else "jitter")
        if size is None:
            nx, ny = int(rng.integers(1, 5)), int(rng.integers(1, 5))
        else:
            nx, ny = size
        if k == "delaunay":
            n = max(4, (nx + 1)*(ny + 1))
            pts = rng.uniform(0, 1, (n, 2))
            xy = pts
            conn = Delaunay(pts).simplices.astype(int)
            ar = _tri_area(xy, conn)
            conn[ar < 0] = conn[ar < 0][:, [0, 2, 1]]
            ar = np.abs(ar)
            e = np.array([[np.sum((xy[c[i]] - xy[c[(i + 1) % 3]])**2) for i in range(3)]
                          for c in conn]).max(axis=1)
            conn = conn[ar/e > 0.08]
            if len(conn) == 0:
                continue
        else:
            xy, q = grid(nx, ny, 0.0 if k == "grid" else 0.22*near, rng)
            if k == "warp":
                x, y = xy.T
                xy = np.column_stack([x + 0.15*near*np.sin(2*y + rng.uniform(0, 3)),
                                      y + 0.15*near*np.sin(2*x + rng.uniform(0, 3))])
            if tri:
                conn = []
                for a, b, c, d in q:
                    if rng.random() < 0.5:
                        conn += [[a, b, c], [a, c, d]]
                    else:
                        conn += [[a, b, d], [b, c, d]]
                conn = np.array(conn)
            else:
                conn = q
        if (holes if holes is not None else rng.random() < 0.3) and len(conn) > 6:
            keep = rng.random(len(conn)) > 0.15
            if keep.sum() >= 3:
                conn = conn[keep]
        conn = _largest_edge_component(conn, conn.shape[1])
        xy, conn = _compact(xy, conn)
        if name in ("tri6", "quad8", "quad9"):
            cv = curved if curved is not None else pick(rng, 0.0, 0.06)
            xy, conn = elevate(rng, xy, conn, name, cv*near)
        if place:
            s = scl if scl is not None else scale(rng, 1e-5, 1e5)
            off = rng.uniform(-1, 1, 2)*pick(rng, 0, 1, 30)
            xy = (xy @ (np.diag(rng.uniform(0.4, 1.0, 2)) if plain else affine(rng, 2, 3.0).T) + off)*s
            if rng.random() < 0.1:
                xy = xy - xy[int(rng.integers(len(xy)))]
        bad = False
        for el in conn:
            lo, _, hi = ref.min_det(name, xy[el], 5)
            if not lo > 0.05*hi:
                bad = True
                break
        if bad:
            continue
        if shuffle:
            xy, conn = renumber(rng, xy, conn)
            conn = rotate_local(rng, name, conn)
            conn = conn[rng.permutation(len(conn))]
        return xy, conn
    raise RuntimeError("no admissible mesh generated")


def renumber(rng, xy, conn):
    perm = rng.permutation(len(xy))        # new number of old node i
    new = np.empty_like(xy)
    new[perm] = xy
    return new, perm[conn]


def rotate_local(rng, name, conn):
    conn = conn.copy()
    R = ref.ROTATION[name]
    for i in range(len(conn)):
        for _ in range(int(rng.integers(0, 4))):
            conn[i] = conn[i][R]
    return conn


def mesh3d(rng, name, size=None, jitter=0.2, scl=None, shuffle=True):
    nx, ny, nz = size or tuple(int(v) for v in rng.integers(1, 3, 3))
    g = np.array(list(itertools.product(range(nx + 1), range(ny + 1), range(nz + 1))), float)
    num = {tuple(p.astype(int)): i for i, p in enumerate(g)}
    conn = []
    for i, j, k in itertools.product(range(nx), range(ny), range(nz)):
        v = [num[(i + a, j + b, k + c)] for a, b, c in
             [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]]
        if name == "hex8":
            conn.append(v)
        else:
            for t in [(0, 1, 2, 6), (0, 2, 3, 6), (0, 3, 7, 6), (0, 7, 4, 6), (0, 4, 5, 6), (0, 5, 1, 6)]:
                conn.append([v[q] for q in t])
    conn = np.array(conn)
    for _ in range(50):
        x = g + rng.uniform(-jitter, jitter, g.shape)
        s = scl if scl is not None else scale(rng, 1e-4, 1e4)
        x = (x @ affine(rng, 3, 2.0).T + rng.uniform(-1, 1, 3)*pick(rng, 0, 1, 20))*s
        if all(ref.min_det(name, x[el], 3)[0] > 0.05*ref.min_det(name, x[el], 3)[2] for el in conn):
            break
    else:
        raise RuntimeError("no admissible 3D mesh")
    if shuffle:
        x, conn = renumber(rng, x, conn)
        conn = rotate_local(rng, name, conn)
    return x, conn


# -- models ----------------------------------------------------------------------
def tables(rng, xy, conn, types, mats_id, cons=None, dressed=True, ids=True):
    """nodes and elements tables in the documented layout"""
    n = len(xy)
    nodes = np.column_stack([np.arange(n), xy])
    if cons is not None:
        nodes = np.column_stack([nodes, cons])
    number = np.arange(len(conn))
    if ids and rng.random() < 0.3:
        number = pick(rng, rng.permutation(len(conn)), number + int(rng.integers(1, 10**5)), number[::-1]*7, 0*number)
    elements = np.column_stack([number,
                                np.broadcast_to(types, len(conn)),
                                mats_id, conn]).astype(int)
    if dressed:
        return dress(rng, nodes), dress(rng, elements)
    return nodes, elements


def materials(rng, n=None, cols=None, spread=True):
    n = n or int(rng.integers(1, 5))
    E0 = young(rng)
    rows = []
    for _ in range(n):
        E = E0*(log_uniform(rng, 0.1, 10) if spread else 1)
        rows.append([E, poisson(rng), density(rng)])
    m = np.array(rows)
    cols = cols or int(rng.integers(2, 4))
    return m[:, :cols]


def clamp(rng, xy, ndof=2, kind=None):
    """constraints that hold the body: a side, a few nodes or a determinate set"""
    n = len(xy)
    cons = np.zeros((n, ndof), int)
    kind = kind or pick(rng, "side", "side", "two", "determinate")
    d = xy @ rng.normal(size=xy.shape[1])
    order = np.argsort(d)
    if kind == "side":
        k = max(2, n//5)
        cons[order[:k]] = -1
    elif kind == "two" or ndof != 2:
        cons[order[0]] = -1
        cons[order[-1]] = -1
    else:
        a, b = determinate(xy, rng)
        cons[a] = -1
        cons[b[0], b[1]] = -1
    return cons


def determinate(xy, rng=None):
    """node fixed in both directions and (node, direction) of a third restraint"""
    a = 0 if rng is None else int(rng.integers(len(xy)))
    r = xy - xy[a]
    b = int(np.argmax(np.hypot(*r.T)))
    # restrain b across the line a-b as far as possible
    d = int(abs(r[b, 1]) > abs(r[b, 0]))
    return a, (b, 1 - d)


def loads(rng, n, ndof=2, cons=None, mag=None, count=None):
    """a load table with repeats, zeros and loads on constrained directions"""
    mag = mag if mag is not None else log_uniform(rng, 1e-3, 1e6)
    k = count or int(rng.integers(1, 2*n + 1))
    ids = rng.integers(0, n, k)
    vals = rng.uniform(-1, 1, (k, ndof))*mag
    vals[rng.random(vals.shape) < 0.2] = 0
    if not np.abs(vals).max() > 0:
        vals[0, 0] = mag
    tab = np.column_stack([ids.astype(float), vals])
    if count is None and rng.random() < 0.2:      # the same load given twice counts twice
        tab = np.vstack([tab, tab[rng.integers(0, k, int(rng.integers(1, 4)))]])
    return tab


def rhs_of(loads_, n, ndof):
    f = np.zeros((n, ndof))
    for row in np.asarray(loads_, float):
        f[int(row[0])] += row[1:1 + ndof]
    return f
