"""C15 completed displacements."""
import numpy as np
import solidspy.assemutil as ass
import solidspy.postprocesor as pos
from vlib.core import Family
from vlib import gen
from checks.c11 import constraints
from checks.c13 import big

RULE = ("a case is a constraint pattern with the code's or an arbitrary numbering of the free freedoms and "
        "a solution of all-distinct values (so each identifies its equation); distinct = (numbering, solution)")


def complete(ctx):
    rng = ctx.rng
    nd = int(rng.integers(1, 4))
    n = big(rng, ctx.index) or int(gen.pick(rng, 1, 2, rng.integers(1, 60), rng.integers(1, 60), 400))
    c = constraints(rng, n, nd) if n < 30000 else np.where(rng.random((n, nd)) < 0.05, -1, 0)
    free = c == 0
    if rng.random() < 0.5:
        neq, bc = ctx.call("eqcounter", ass.eqcounter, c, ndof_node=nd)
        bc = np.asarray(bc)
    else:
        bc = np.where(free, 0, -1)
        bc[free] = rng.permutation(free.sum())
        neq = free.sum()
    neq = int(neq)
    u = (rng.permutation(neq) + 1.0)*gen.log_uniform(rng, 1e-12, 1e6)*rng.choice([-1, 1])
    if rng.random() < 0.2:
        u = np.round(rng.normal(size=neq)*5)
    if rng.random() < 0.2:                    # tiny and exactly zero values among ordinary ones
        u = u*10.0**rng.uniform(-280, 0, neq)*(rng.random(neq) < 0.9)
    if rng.random() < 0.15:                   # complex amplitudes
        u = u*np.exp(1j*rng.uniform(0, 6.3, neq))
        ctx.event("complex solutions")
    nodes = np.column_stack([np.arange(n), rng.normal(size=(n, 2))])
    if rng.random() < 0.2:                    # whole coordinates, stored as integers
        nodes = np.round(nodes*3).astype(int)
    if rng.random() < 0.5:
        nodes = np.column_stack([nodes, c])
    kw = {} if nd == 2 and rng.random() < 0.5 else {"ndof_node": nd}
    what = "complete_disp(%d nodes, %d dof)" % (n, nd)
    U = ctx.call(what, pos.complete_disp, gen.dress(rng, bc), gen.dress(rng, nodes), gen.dress(rng, u), **kw)
    U = np.asarray(U)
    ctx.ok(U.shape == (n, nd), what + ": shape %s" % (U.shape,))
    ctx.ok(U.dtype.kind == ("c" if u.dtype.kind == "c" else "f"), what + ": dtype %s" % U.dtype)
    ctx.ok(np.all(U[~free] == 0), what + ": a constrained direction moves")
    want = np.zeros((n, nd), u.dtype)
    want[free] = u[bc[free]]
    ctx.close(U, want, what, 0, 1)
    back = np.full(neq, np.nan, u.dtype)
    back[bc[free]] = U[free]
    ctx.close(back, u, what + ": gathered back", 0, 1)
    # linear
    ctx.close(ctx.call(what, pos.complete_disp, bc, nodes, -2*u, ndof_node=nd), -2*U, what + ": linear", 1e-14,
              max(1e-300, np.abs(U).max()))
    ctx.event("freedoms judged", n*nd)
    ctx.key(bc, u)
    ctx.note(nodes=n, ndof=nd, neq=neq)


FAMILIES = [Family(complete, 2000, 60000)]
