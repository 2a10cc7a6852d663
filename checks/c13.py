"""C13 load vector."""
import numpy as np
import solidspy.assemutil as ass
from vlib.core import Family
from vlib import gen
from checks.c11 import constraints


def big(rng, index):
    """a few cases have more freedoms, or rows of loads, than 16-bit numbers count"""
    return int(rng.integers(33000, 70000)) if index % 200 == 50 else 0

RULE = ("a case is a load table (repeated rows, zeros, loads on constrained directions, empty, int/float, "
        "strided, extra columns never needed) with a numbering from the code or an arbitrary one; "
        "oracle = own accumulation; distinct = (loads, constraints)")


def vector(ctx):
    rng = ctx.rng
    nd = int(rng.integers(1, 4))
    n = big(rng, ctx.index) or int(gen.pick(rng, 1, 2, rng.integers(1, 50), rng.integers(1, 50), 300))
    c = constraints(rng, n, nd) if n < 30000 else np.where(rng.random((n, nd)) < 0.05, -1, 0)
    if rng.random() < 0.6:
        neq, bc = ctx.call("eqcounter", ass.eqcounter, c, ndof_node=nd)
        bc = np.asarray(bc)
    else:                                    # any numbering of the free freedoms
        free = c == 0
        bc = np.where(free, 0, -1)
        bc[free] = rng.permutation(free.sum())
        neq = int(free.sum())
    k = (5000 if rng.random() < 0.5 else n) if n > 30000 else int(gen.pick(rng, 0, 1, 2, rng.integers(0, 3*n + 1), rng.integers(0, 3*n + 1)))
    ld = np.zeros((k, nd + 1))
    ld[:, 0] = rng.integers(0, n, k)
    if n > 30000:
        ld[:50, 0] = n - 1 - np.arange(50)
    if rng.random() < 0.3 and k:
        ld[:, 0] = ld[0, 0]                  # all on one node
    if rng.random() < 0.2 and k:
        ld[:, 0] = np.sort(ld[:, 0])
    ints = rng.random() < 0.3
    mag = 1 if ints else gen.log_uniform(rng, 1e-9, 1e9)
    ld[:, 1:] = rng.integers(-5, 6, (k, nd)) if ints else rng.normal(size=(k, nd))*mag
    if rng.random() < 0.2 and not ints:      # forces next to moments, wind next to weight: decades apart
        ld[:, 1:] *= 10.0**rng.uniform(-16, 0, (k, 1) if rng.random() < 0.5 else (1, nd))
    if rng.random() < 0.15:                  # amplitudes of harmonic loads
        ld = ld + 0j
        ld[:, 1:] *= np.exp(1j*rng.uniform(0, 6.3, (k, nd)))
        ctx.event("tables of complex loads")
    tab = gen.dress(rng, ld)
    kw = {} if nd == 2 and rng.random() < 0.5 else {"ndof_node": nd}
    f = ctx.call("loadasem", ass.loadasem, tab, gen.dress(rng, bc), int(neq), **kw)
    want, size = np.zeros(int(neq), ld.dtype), np.zeros(int(neq))
    for row in ld:
        for d in range(nd):
            e = bc[int(row[0].real), d]
            if e >= 0:
                want[e] += row[1 + d]
                size[e] += abs(row[1 + d])
    what = "loadasem(%d rows, %d nodes, %d dof)" % (k, n, nd)
    s = max(np.abs(ld[:, 1:]).sum(), mag) if k else 1.0
    ctx.close(f, want, what, 1e-14, s)
    ctx.ok(np.asarray(f).dtype.kind == ld.dtype.kind, what + ": dtype %s" % np.asarray(f).dtype)
    f = np.asarray(f)
    off = ~(np.abs(f - want) <= 1e-13*size)   # each component to its own accuracy
    ctx.ok(not off.any(), what + ": small loads", at=np.flatnonzero(off)[:4], got=f[off][:4], expected=want[off][:4])
    # order and splitting do not matter; linear
    p = rng.permutation(k)
    ctx.close(ctx.call(what, ass.loadasem, ld[p], bc, int(neq), ndof_node=nd), f, what + " permuted", 1e-13, s)
    if k:
        half = ld.copy()
        half[:, 1:] *= 0.5
        ctx.close(ctx.call(what, ass.loadasem, np.vstack([half, half[::-1]]), bc, int(neq), ndof_node=nd), f,
                  what + " split in halves", 1e-13, s)
        a = rng.normal()
        sc = ld.copy()
        sc[:, 1:] *= a
        ctx.close(ctx.call(what, ass.loadasem, sc, bc, int(neq), ndof_node=nd), a*f, what + " scaled", 1e-13, s*abs(a))
    # no load is lost: total of the vector = total applied on free directions
    free_sum = ld[:, 1:][bc[ld[:, 0].real.astype(int), :nd] >= 0].sum()
    ctx.close(f.sum(), free_sum, what + ": total load", 1e-13, s)
    ctx.event("load rows", k)
    ctx.high("rows in one table", k)
    ctx.key(ld, bc)
    ctx.note(rows=k, nodes=n, ndof=nd, neq=neq, distinct_nodes=len(set(ld[:, 0])))


FAMILIES = [Family(vector, 2000, 60000)]
