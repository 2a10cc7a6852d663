"""C01 quadrature exactness."""
import itertools
from math import factorial

import numpy as np
import solidspy.gaussutil as gau
from vlib.core import Family
from vlib import gen

RULE = ("every rule is requested; a case is one rule probed with all monomials of its advertised "
        "degree plus random polynomials, compared with closed-form integrals; distinct = rule "
        "(with its arguments and the polynomial coefficients)")
ASSUMPTIONS = ["advertised degree: 2n-1 per direction (Gauss-Legendre), the order argument (simplices)",
               "simplex weights are normalised to unit sum, as the elements use them"]


def interval(e):
    return 0.0 if e % 2 else 2.0/(e + 1)


def simplex(ex):
    d = len(ex)
    v = 1.0
    for e in ex:
        v *= factorial(e)
    return v/factorial(sum(ex) + d)


def as_table(ctx, label, res, ndim):
    pts, wts = res
    pts = np.asarray(pts, float)
    wts = np.asarray(list(wts), float)
    ctx.ok(wts.ndim == 1 and len(wts) >= 1, label + ": weights must be one per point")
    want = (len(wts),) if ndim == 0 else (len(wts), ndim)
    ctx.ok(pts.shape == want, label + ": points array has shape %s for %d weights" % (pts.shape, len(wts)))
    ctx.ok(np.isfinite(pts).all() and np.isfinite(wts).all(), label + ": non-finite table")
    return pts, wts


def line(ctx):
    n = 2 + ctx.index % 9
    pts, wts = as_table(ctx, "gauss_1d(%d)" % n, ctx.call("gauss_1d", gau.gauss_1d, n), 0)
    ctx.ok(len(wts) == n, "gauss_1d(%d) has %d points" % (n, len(wts)))
    ctx.ok(np.abs(pts).max() < 1, "Gauss points outside the interval", n=n)
    for e in range(2*n):
        ctx.close(np.sum(wts*pts**e), interval(e), "gauss_1d(%d) on x^%d" % (n, e), 1e-12, 1.0)
    x, w = np.polynomial.legendre.leggauss(n)
    o = np.argsort(pts)
    ctx.close(pts[o], x, "gauss_1d(%d) points" % n, 1e-12)
    ctx.close(wts[o], w, "gauss_1d(%d) weights" % n, 1e-12)
    c = ctx.rng.normal(size=2*n)
    ctx.close(np.sum(wts*np.polyval(c, pts)),
              sum(ci*interval(2*n - 1 - i) for i, ci in enumerate(c)),
              "gauss_1d(%d) on a random polynomial" % n, 1e-11, np.abs(c).sum())
    ctx.key("1d", n, c)
    ctx.note(rule="gauss_1d", n=n, degree=2*n - 1)


def box(ctx):
    rng = ctx.rng
    combos = [(n, d) for d in (1, 2, 3) for n in range(2, 11)] + [(n, 4) for n in (2, 3, 4)]
    n, d = combos[ctx.index % len(combos)]
    if rng.random() < 0.3:
        n = np.int64(n)
    label = "gauss_nd(%d, ndim=%d)" % (n, d)
    if d == 2 and rng.random() < 0.5:
        res = ctx.call(label, gau.gauss_nd, n)
    else:
        res = ctx.call(label, gau.gauss_nd, n, ndim=d) if rng.random() < 0.5 \
            else ctx.call(label, gau.gauss_nd, n, d)
    pts, wts = as_table(ctx, label, res, d)
    ctx.ok(len(wts) == n**d, label + " has %d points" % len(wts))
    ctx.ok(np.abs(pts).max() < 1, label + " has points outside the domain")
    if (2*n)**d <= 4000:
        exps = list(itertools.product(range(2*n), repeat=d))
    else:
        exps = [tuple(int(v) for v in rng.integers(0, 2*n, d)) for _ in range(1500)]
        exps += [tuple(2*n - 2 if i == k else 0 for i in range(d)) for k in range(d)]
        exps += [tuple(2*n - 2 for _ in range(d)), tuple(2*n - 1 for _ in range(d))]
    pw = np.array([pts**e for e in range(2*n)])          # degree, point, dim
    vals = np.array([np.sum(wts*np.prod([pw[e[k], :, k] for k in range(d)], axis=0)) for e in exps])
    exact = np.array([np.prod([interval(q) for q in e]) for e in exps])
    ctx.close(vals, exact, label + " on monomials of degree < %d per direction" % (2*n), 1e-11, 2.0**d)
    ctx.event("monomials", len(exps))
    ctx.key("nd", int(n), d)
    ctx.note(rule="gauss_nd", n=n, ndim=d, monomials=len(exps))


def _simplex(ctx, fn, order, d, kw, tol):
    rng = ctx.rng
    label = "%s(order=%d)" % (fn.__name__, order)
    res = ctx.call(label, fn, **kw) if kw is not None else ctx.call(label, fn, order)
    pts, wts = as_table(ctx, label, res, d)
    ctx.ok(pts.min() > -1e-12 and pts.sum(axis=1).max() < 1 + 1e-12, label + " has points outside the domain")
    ctx.close(wts.sum(), 1.0, label + " weights sum", tol)
    exps = [e for e in itertools.product(range(order + 1), repeat=d) if sum(e) <= order]
    vals = np.array([np.sum(wts*np.prod(pts**np.array(e), axis=1)) for e in exps])/factorial(d)
    exact = np.array([simplex(e) for e in exps])
    ctx.close(vals, exact, label + " on monomials of total degree <= %d" % order, tol, 1/factorial(d))
    # the same in rotated barycentric coordinates: catches errors tiny in monomials
    bary = np.column_stack([1 - pts.sum(axis=1), pts])
    for _ in range(6):
        e = rng.multinomial(order, np.ones(d + 1)/(d + 1))
        got = np.sum(wts*np.prod(bary**e, axis=1))/factorial(d)
        want = np.prod([factorial(int(q)) for q in e])/factorial(order + d)
        ctx.close(got, want, label + " on barycentric monomial %s" % list(e), tol, 1/factorial(d))
        ctx.key(fn.__name__, order, e)
    a = rng.normal(size=(order, d + 1))     # product of random linear factors
    lin = np.prod([bary @ q for q in a], axis=0)
    fine = _fine(d)
    lf = np.prod([fine[0] @ q for q in a], axis=0)
    sc = np.prod([np.abs(q).max() for q in a])/factorial(d)
    ctx.close(np.sum(wts*lin)/factorial(d), np.sum(fine[1]*lf), label + " on a product of linear factors", tol*10, sc)
    ctx.event("monomials", len(exps))
    ctx.note(rule=fn.__name__, order=order, points=len(wts), monomials=len(exps))


_F = {}


def _fine(d):
    from vlib import ref
    if d not in _F:
        p, w = ref.simplex_rule(10, d)
        _F[d] = (np.column_stack([1 - p.sum(axis=1), p]), w)
    return _F[d]


def triangle(ctx):
    order = 1 + ctx.index % 7
    kw = [None, {"order": order}, {}][ctx.index // 7 % 3] if order == 2 else \
        [None, {"order": order}][ctx.index // 7 % 2]
    _simplex(ctx, gau.gauss_tri, order, 2, kw, 2e-11)


def tetrahedron(ctx):
    order = 1 + ctx.index % 10
    kw = [None, {"order": order}, {}][ctx.index // 10 % 3] if order == 3 else \
        [None, {"order": order}][ctx.index // 10 % 2]
    _simplex(ctx, gau.gauss_tet, order, 3, kw, 2e-11)


def out_of_range(ctx):
    rng = ctx.rng
    bad = {gau.gauss_1d: [0, 1, 11, 12, -1, -3, 50, 100], gau.gauss_tri: [0, 8, 9, -1, 12, 100],
           gau.gauss_tet: [0, 11, 12, -1, -2, 100]}
    for fn, vals in bad.items():
        v = vals[ctx.index % len(vals)]
        ctx.raises(ValueError, "%s(%d)" % (fn.__name__, v), fn, v)
        ctx.ok(True, "")
        ctx.key("bad", fn.__name__, v)
    v = gen.pick(rng, 1.5, 2.5, 3.999999, 0.5, 10.5, np.nan, np.inf)      # between the offered ones
    for fn in (gau.gauss_1d, gau.gauss_nd, gau.gauss_tri, gau.gauss_tet):
        ctx.raises(ValueError, "%s(%r)" % (fn.__name__, v), fn, v)
    v = gen.pick(rng, 0, 1, 11, 15)
    d = int(rng.integers(1, 4))
    ctx.raises(ValueError, "gauss_nd(%d, %d)" % (v, d), gau.gauss_nd, v, d)


FAMILIES = [Family(line, 18, 90), Family(box, 60, 240), Family(triangle, 84, 2000),
            Family(tetrahedron, 120, 2000), Family(out_of_range, 8, 40)]
