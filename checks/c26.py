"""C26 Bloch numbering and transformation."""
import numpy as np
import solidspy.blochutil as blo
from vlib.core import Family
from vlib import gen

RULE = ("a case is a periodic pairing: nodes with 1-6 freedoms in 1-3 dimensions, several images per reference, "
        "pairs in any order, images numbered before or after their references, any freedom numbering, lists or "
        "arrays; the numbering and the matrix are compared with their definition; distinct = pairing content")
ASSUMPTIONS = ["references are independent (the images of corners refer to one corner)"]


def pairing(rng, big=False):
    dim = int(rng.integers(1, 4))
    n = int(gen.pick(rng, 2, 3, rng.integers(2, 25), rng.integers(2, 25)))
    if big:
        n = int(rng.integers(400, 1500))
    if big == "huge":
        n = int(rng.integers(17000, 20000))
    coords = rng.normal(size=(n, dim))*gen.pick(rng, 1, 1, 10)
    if rng.random() < 0.4:
        coords = np.round(coords*2)
    k = int(gen.pick(rng, 0, 1, rng.integers(0, n), rng.integers(0, n), n - 1))
    p = rng.permutation(n)
    style = gen.pick(rng, "any", "images first", "images last")
    if style == "images first":
        p = np.arange(n)
    elif style == "images last":
        p = np.arange(n)[::-1]
    ima = p[:k]
    indep = p[k:]
    few = rng.permutation(indep)[:max(1, int(rng.integers(1, len(indep) + 1)))]
    ref_ = rng.choice(few, k) if k else np.array([], int)
    o = rng.permutation(k)
    return coords, ima[o], ref_[o]


def number(rng, n, free):
    """freedoms of the nodes, in any order"""
    cnt = np.full(n, free) if isinstance(free, int) else free
    tot = int(cnt.sum())
    num = rng.permutation(tot) if rng.random() < 0.5 else np.arange(tot)
    out, c = [], 0
    for i in range(n):
        out.append([int(v) for v in num[c:c + cnt[i]]])
        c += cnt[i]
    return out, tot


def build(rng, big=False):
    coords, ima, ref_ = pairing(rng, big)
    n = len(coords)
    free = int(gen.pick(rng, 1, 2, 3, 4, 6))
    if big == "huge":
        free = int(rng.integers(4, 7))
    dofs, ndofs = number(rng, n, free)
    # tie all freedoms or a subset, the same for every node
    sub = list(range(free))
    if rng.random() < 0.2 and free > 1:
        sub = sorted(int(v) for v in rng.permutation(free)[:int(rng.integers(1, free))])
    ref_dof = {int(r): [dofs[r][s] for s in sub] for r in ref_}
    ima_dof = {int(i): [dofs[i][s] for s in sub] for i in ima}
    dr = [d for r in ref_ for d in ref_dof[int(r)]]
    di = [d for i in ima for d in ima_dof[int(i)]]
    if rng.random() < 0.3 and dr:             # the freedom lists need not follow the node lists
        o = rng.permutation(len(dr))
        dr, di = [dr[i] for i in o], [di[i] for i in o]
    wrap = gen.pick(rng, list, tuple, np.array)
    return dict(coords=coords, ndofs=ndofs, ima=wrap([int(i) for i in ima]) if len(ima) else [],
                ref=wrap([int(i) for i in ref_]) if len(ref_) else [], dr=wrap(dr) if dr else [],
                di=wrap(di) if di else [], rd=ref_dof, id=ima_dof, free=free)


def check_numbering(ctx, ndofs, di, dr, new, what):
    new = list(new)
    ctx.ok(len(new) == ndofs, what + ": length %d" % len(new))
    ctx.ok(all(v is not None and int(v) == v for v in new), what + ": not integers", new=new)
    ima = set(int(d) for d in di)
    ind = [int(new[d]) for d in range(ndofs) if d not in ima]
    ctx.ok(sorted(ind) == list(range(len(ind))), what + ": independent freedoms are not numbered consecutively", new=ind)
    for a, b in zip(di, dr):
        ctx.ok(new[int(a)] == new[int(b)], what + ": image %d has number %s, its reference %d has %s"
               % (a, new[int(a)], b, new[int(b)]))
    return len(ind)


def transform(ctx):
    rng = ctx.rng
    b = build(rng, "huge" if ctx.index % 250 == 7 else ctx.index % 100 == 60)
    new = ctx.call("reassign_dof_bloch", blo.reassign_dof_bloch, b["ndofs"], b["di"], b["dr"])
    what = "%d freedoms, %d images" % (b["ndofs"], len(b["di"]))
    nind = check_numbering(ctx, b["ndofs"], b["di"], b["dr"], new, what)
    dim = b["coords"].shape[1]
    k = gen.pick(rng, np.zeros(dim), rng.normal(size=dim)*3, rng.integers(-3, 4, dim)*np.pi, rng.integers(-3, 4, dim))
    if rng.random() < 0.35:                   # long waves, waves next to special points, other units
        k = np.asarray(k, float) + rng.normal(size=dim)*gen.log_uniform(rng, 1e-9, 1e-1)
    if rng.random() < 0.3:
        u = gen.log_uniform(rng, 1e-9, 1e6)
        b["coords"], k = b["coords"]*u, np.asarray(k)/u
    if rng.random() < 0.3:
        k = list(k)
    if rng.random() < 0.3:                    # any consistent numbering
        p = rng.permutation(nind)
        new = [int(p[v]) for v in new]
        if rng.random() < 0.5:
            new = np.array(new)

    def T(kk):
        t = ctx.call("bloch_transform_mat", blo.bloch_transform_mat, kk, b["coords"], b["ndofs"], b["ref"], b["ima"],
                     b["dr"], b["di"], b["rd"], b["id"], new)
        ctx.ok(t.shape == (b["ndofs"], nind), what + ": matrix of shape %s, expected %s" % (t.shape, (b["ndofs"], nind)))
        return t
    t = T(k)
    owner = {}
    for i, r in zip(b["ima"], b["ref"]):
        for a, c in zip(b["id"][int(i)], b["rd"][int(r)]):
            owner[a] = (c, np.exp(1j*np.dot(np.asarray(k, float), b["coords"][i] - b["coords"][r])))
    q = rng.normal(size=nind) + 1j*rng.normal(size=nind)
    full = t @ q
    want = np.zeros(b["ndofs"], complex)
    for d in range(b["ndofs"]):
        c, ph = owner.get(d, (d, 1.0))
        want[d] = ph*q[int(new[c])]
    ctx.close(full, want, what + ": full vector (k=%s)" % (k,), 1e-12, 1 + np.abs(q).max())
    if b["ndofs"] < 10000:
        A = t.toarray()
        W = np.zeros((b["ndofs"], nind), complex)
        for d in range(b["ndofs"]):
            c, ph = owner.get(d, (d, 1.0))
            W[d, int(new[c])] = ph
        ctx.close(A, W, what + ": matrix", 1e-12, 1.0)
        ctx.close(np.asarray(T(-np.asarray(k, float)).toarray()), A.conj(), what + ": opposite wavevector", 1e-12, 1.0)
    one = T(np.zeros(dim)) @ np.ones(nind)
    ctx.close(one, np.ones(b["ndofs"]), what + ": constant field at zero wavevector", 1e-14, 1.0)
    ctx.event("images", len(owner))
    ctx.event("freedoms per node %d" % b["free"])
    ctx.key(b["coords"], list(b["di"]), list(b["dr"]), np.asarray(k, float))
    ctx.note(dimension=dim, ndofs=b["ndofs"], images=len(b["di"]), independent=nind, wavevector=list(k))


def numbering(ctx):
    """pairings of plain freedoms, large and small"""
    rng = ctx.rng
    for _ in range(5):
        n = int(gen.pick(rng, 1, 2, rng.integers(2, 40), rng.integers(2, 40), 400, 2500))
        if _ == 0 and ctx.index % 25 == 3:
            n = int(rng.integers(66000, 90000))
        k = int(gen.pick(rng, 0, rng.integers(0, n), n - 1))
        p = rng.permutation(n)
        di = p[:k]
        if rng.random() < 0.3:
            di = np.sort(di)
        ind = np.setdiff1d(np.arange(n), di)
        dr = rng.choice(ind, k) if k else np.array([], int)
        wrap = gen.pick(rng, lambda a: [int(v) for v in a], lambda a: tuple(int(v) for v in a), np.array)
        new = ctx.call("reassign_dof_bloch", blo.reassign_dof_bloch, n, wrap(di), wrap(dr))
        check_numbering(ctx, n, di, dr, new, "numbering of %d freedoms, %d images" % (n, k))
        ctx.key(di, dr, n)
    ctx.note(ndofs=n, images=k)


FAMILIES = [Family(transform, 500, 12000), Family(numbering, 100, 2000)]
