"""C24 rectangular grids."""
import numpy as np
import solidspy.assemutil as ass
import solidspy.preprocesor as pre
from vlib.core import Family
from vlib import gen, model, ref

RULE = ("a case is (length, height, nx, ny) with lengths from 1e-6 to 1e9 and 1..60 divisions (int, float, numpy "
        "scalars); the tiling is checked against its definition and the mesh run through assembly and a patch "
        "solution; distinct = arguments")


def size(rng):
    return gen.pick(rng, 1.0, 2, 10, float(rng.uniform(0.1, 5)), gen.log_uniform(rng, 1e-6, 1e9), 1/3, 0.1, 0.7)


def args(ctx):
    rng = ctx.rng
    L, H = size(rng), size(rng)
    k = ctx.index % 8
    nx, ny = int(rng.integers(1, 13)), int(rng.integers(1, 13))
    if k == 0:
        nx = int(gen.pick(rng, 1, 3, 7, 11, 13, 49, 60))
    elif k == 1:
        ny = int(gen.pick(rng, 1, 3, 7, 11, 13, 49, 60))
    elif k == 2:
        nx = ny = int(rng.integers(1, 20))
    elif k == 3:
        nx, ny = int(rng.integers(40, 61)), int(rng.integers(40, 61))
    if ctx.index % 100 == 4:                      # node numbers beyond 16 bits
        nx, ny = gen.pick(rng, (300, 230), (270, 260), (1, 33000), (35000, 1), (257, 257))
    return L, H, nx, ny


def grid(ctx):
    rng = ctx.rng
    L, H, nx, ny = args(ctx)
    cast = gen.pick(rng, int, int, np.int64, np.int32)
    a = (L, H, cast(nx), cast(ny))
    x, y, els = ctx.call("rect_grid%s" % (a,), pre.rect_grid, *a, **({"eletype": None} if rng.random() < 0.1 else {}))
    x, y, els = np.asarray(x), np.asarray(y), np.asarray(els)
    what = "rect_grid(%g, %g, %d, %d)" % (L, H, nx, ny)
    n = (nx + 1)*(ny + 1)
    ctx.ok(x.shape == y.shape == (n,), what + ": %s nodes" % (x.shape,))
    ctx.ok(els.shape == (nx*ny, 7) and els.dtype.kind == "i", what + ": elements %s %s" % (els.shape, els.dtype))
    # evenly spaced lattice, each position once
    i, j = (x/L + 0.5)*nx, (y/H + 0.5)*ny
    ctx.close(i, np.round(i), what + ": x not evenly spaced", 1e-9, 1.0)
    ctx.close(j, np.round(j), what + ": y not evenly spaced", 1e-9, 1.0)
    I, J = np.round(i).astype(int), np.round(j).astype(int)
    ctx.ok(I.min() == 0 and I.max() == nx and J.min() == 0 and J.max() == ny, what + ": does not fill the rectangle")
    ctx.ok(len(set(zip(I, J))) == n, what + ": nodes are not distinct")
    ctx.close(np.array([x.min(), x.max()]), np.array([-L/2, L/2]), what + ": ends in x", 1e-13)
    ctx.close(np.array([y.min(), y.max()]), np.array([-H/2, H/2]), what + ": ends in y", 1e-13)
    ctx.close(x, (I/nx - 0.5)*L, what + ": x", 1e-12, L)
    ctx.close(y, (J/ny - 0.5)*H, what + ": y", 1e-12, H)
    # elements
    ctx.ok(np.array_equal(els[:, 0], np.arange(nx*ny)), what + ": element ids")
    ctx.ok(np.all(els[:, 1] == 1) and np.all(els[:, 2] == 0), what + ": element type or material")
    c = els[:, 3:]
    ctx.ok(c.min() >= 0 and c.max() < n and len(np.unique(c)) == n, what + ": not every node is used")
    CI, CJ = I[c], J[c]
    lo = np.column_stack([CI.min(axis=1), CJ.min(axis=1)])
    ctx.ok(len(set(map(tuple, lo))) == nx*ny, what + ": cells covered twice")
    off = np.stack([CI - lo[:, :1], CJ - lo[:, 1:]], axis=2)
    ref_ = np.array([(0, 0), (1, 0), (1, 1), (0, 1)])
    good = np.zeros(len(c), bool)
    for k in range(4):                        # counter-clockwise from any corner
        good |= np.all(off == np.roll(ref_, -k, axis=0)[None], axis=(1, 2))
    ctx.ok(good.all(), what + ": element %d is not its cell, counter-clockwise" % int(np.argmin(good)),
           nodes=c[int(np.argmin(good))])
    area = 0.5*sum(x[c[:, k]]*y[c[:, (k + 1) % 4]] - x[c[:, (k + 1) % 4]]*y[c[:, k]] for k in range(4))
    ctx.close(np.array(area.sum()), np.array(float(L)*float(H)), what + ": area", 1e-10)
    edges = {}
    for el in c:
        for k in range(4):
            e = (int(el[k]), int(el[(k + 1) % 4]))
            ctx.ok(e not in edges, what + ": edge used twice in the same sense")
            edges[e] = 1
    inner = sum((b, a_) in edges for a_, b in edges)
    ctx.ok(inner == 2*(nx*(ny - 1) + ny*(nx - 1)), what + ": shared edges")
    ctx.event("cells", nx*ny)
    ctx.key(float(L), float(H), nx, ny)
    ctx.note(length=L, height=H, nx=nx, ny=ny)


def used(ctx):
    """the grid is accepted by assembly and solves a patch test"""
    rng = ctx.rng
    L = gen.log_uniform(rng, 1e-2, 1e3)
    H = L*10**rng.uniform(-0.7, 0.7)
    nx, ny = int(rng.integers(1, 6)), int(rng.integers(1, 6))
    x, y, els = ctx.call("rect_grid", pre.rect_grid, L, H, nx, ny)
    xy = np.column_stack([x, y])
    E, nu = gen.young(rng), gen.poisson(rng)
    cons = np.zeros((len(x), 2), int)
    cons[np.abs(x + L/2) < 1e-9*L, 0] = -1
    cons[np.abs(y + H/2) < 1e-9*H, 1] = -1
    m = model.Model(xy, els[:, 3:], 1, np.array([[E, nu]]), np.zeros(nx*ny, int), cons, None)
    right = np.abs(x - L/2) < 1e-9*L
    p = rng.normal()*E*1e-3
    f = np.where(right, p*H/ny, 0.0)
    f[right & (np.abs(np.abs(y) - H/2) < 1e-9*H)] *= 0.5
    m.loads = np.column_stack([np.arange(len(x)), f, 0*f])
    nodes = np.column_stack([np.arange(len(x)), xy, cons])
    op, bc, neq = ctx.call("DME", ass.DME, cons, els)
    K, M = ctx.call("assembler", ass.assembler, els, m.mats, nodes, neq, op)
    ctx.close(np.array(M.sum() if neq == 2*len(x) else 0.0), np.array(0.0 if neq != 2*len(x) else 2*L*H), "mass", 1e-9, L*H)
    out = model.modular(ctx, m, rng)
    want = np.column_stack([p/E*(x + L/2), -nu*p/E*(y + H/2)])
    ctx.close(out["U"], want, "bar on rect_grid(%g, %g, %d, %d)" % (L, H, nx, ny), 1e-8, np.abs(want).max())
    op, bc, neq = ctx.call("DME", ass.DME, 0*cons, els)
    _, M = ctx.call("assembler", ass.assembler, els, np.array([[E, nu, 3.0]]), nodes, neq, op)
    ctx.close(np.array(M.sum()), np.array(6.0*L*H), "mass of the grid", 1e-10)
    ctx.key(L, H, nx, ny)
    ctx.note(length=L, height=H, nx=nx, ny=ny)


FAMILIES = [Family(grid, 300, 5000), Family(used, 80, 1500)]
