"""Independent reference model: interpolation, quadrature, elasticity, members,
assembly.  Nothing here imports the code under test."""
import functools
import itertools

import numpy as np

_m = 0.5
ELEMS = {
    "tri3": dict(dim=2, dom="tri", nodes=[(0, 0), (1, 0), (0, 1)],
                 exps=[(0, 0), (1, 0), (0, 1)]),
    "tri6": dict(dim=2, dom="tri", nodes=[(0, 0), (1, 0), (0, 1), (_m, 0), (_m, _m), (0, _m)],
                 exps=[(0, 0), (1, 0), (0, 1), (2, 0), (1, 1), (0, 2)]),
    "quad4": dict(dim=2, dom="box", nodes=[(-1, -1), (1, -1), (1, 1), (-1, 1)],
                  exps=list(itertools.product(range(2), repeat=2))),
    "quad9": dict(dim=2, dom="box", nodes=[(-1, -1), (1, -1), (1, 1), (-1, 1),
                                           (0, -1), (1, 0), (0, 1), (-1, 0), (0, 0)],
                  exps=list(itertools.product(range(3), repeat=2))),
    "quad8": dict(dim=2, dom="box", nodes=[(-1, -1), (1, -1), (1, 1), (-1, 1),
                                           (0, -1), (1, 0), (0, 1), (-1, 0)],
                  exps=[e for e in itertools.product(range(3), repeat=2) if e != (2, 2)]),
    "tet4": dict(dim=3, dom="tri", nodes=[(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)],
                 exps=[(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]),
    "hex8": dict(dim=3, dom="box", nodes=[(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1),
                                          (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)],
                 exps=list(itertools.product(range(2), repeat=3))),
}
DEGREE = {"tri3": 1, "tri6": 2, "quad4": 1, "quad8": 2, "quad9": 2, "tet4": 1, "hex8": 1}
# complete rule used by each element: points per direction (box) or degree (simplex)
FULL_RULE = {"tri3": 2, "tri6": 5, "quad4": 2, "quad8": 3, "quad9": 3, "tet4": 3, "hex8": 2}
TYPE_ID = {"quad4": 1, "tri6": 2, "tri3": 3, "quad9": 4}
# admissible renumberings: rotations of the local node list
ROTATION = {"tri3": [1, 2, 0], "tri6": [1, 2, 0, 4, 5, 3], "quad4": [1, 2, 3, 0],
            "quad8": [1, 2, 3, 0, 5, 6, 7, 4], "quad9": [1, 2, 3, 0, 5, 6, 7, 4, 8],
            "tet4": [1, 2, 0, 3], "hex8": [1, 2, 3, 0, 5, 6, 7, 4]}


def monomials(exps, pt):
    """values and gradient of monomials at a point"""
    pt = np.asarray(pt, float)
    vals = np.array([np.prod(pt**np.array(e)) for e in exps])
    grad = np.zeros((len(pt), len(exps)))
    for j, e in enumerate(exps):
        for d in range(len(pt)):
            if e[d]:
                f = e[d]*pt[d]**(e[d] - 1)
                for k in range(len(pt)):
                    if k != d:
                        f *= pt[k]**e[k]
                grad[d, j] = f
    return vals, grad


@functools.lru_cache(None)
def _vinv(name):
    e = ELEMS[name]
    V = np.array([monomials(e["exps"], p)[0] for p in e["nodes"]])
    W = np.linalg.inv(V)
    W[np.abs(W) < 1e-14] = 0
    return np.round(W*1024)/1024


def basis(name, pt):
    vals, grad = monomials(ELEMS[name]["exps"], pt)
    W = _vinv(name)
    return vals @ W, grad @ W


@functools.lru_cache(None)
def box_rule(n, dim):
    x, w = np.polynomial.legendre.leggauss(n)
    pts = np.array(list(itertools.product(x, repeat=dim)))
    wts = np.array([np.prod(t) for t in itertools.product(w, repeat=dim)])
    return pts, wts


@functools.lru_cache(None)
def simplex_rule(n, dim):
    """collapsed Gauss rule, exact to degree 2n-dim at least"""
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = 0.5*(x + 1), 0.5*w
    pts, wts = [], []
    if dim == 2:
        for i, j in itertools.product(range(n), repeat=2):
            pts.append((x[i], x[j]*(1 - x[i])))
            wts.append(w[i]*w[j]*(1 - x[i]))
    else:
        for i, j, k in itertools.product(range(n), repeat=3):
            a, b = x[i], x[j]*(1 - x[i])
            pts.append((a, b, x[k]*(1 - a - b)))
            wts.append(w[i]*w[j]*w[k]*(1 - a)*(1 - a - b))
    return np.array(pts), np.array(wts)


_R7 = None


def radon7():
    """Radon's 7-point rule of degree 5 on the triangle (closed form)"""
    s = np.sqrt(15.0)
    a, b = (6 - s)/21, (6 + s)/21
    pts = [(1/3, 1/3)] + [(a, a), (1 - 2*a, a), (a, 1 - 2*a)] + \
        [(b, b), (1 - 2*b, b), (b, 1 - 2*b)]
    wts = [9/80] + [(155 - s)/2400]*3 + [(155 + s)/2400]*3
    return np.array(pts), np.array(wts)


def rule(name, n=None):
    """n=None: fine rule; otherwise n points per direction"""
    e = ELEMS[name]
    if e["dom"] == "box":
        return box_rule(n or 8, e["dim"])
    return simplex_rule(n or 7, e["dim"])


def full_rule(name):
    """the element's full integration rule"""
    if name in ("tri3", "tet4"):
        return simplex_rule(4, ELEMS[name]["dim"])   # constant Jacobian: any exact rule
    if name == "tri6":
        return radon7()
    return box_rule(FULL_RULE[name], ELEMS[name]["dim"])


def lame(E, nu):
    return E*nu/((1 + nu)*(1 - 2*nu)), E/(2*(1 + nu))


def hooke(E, nu, eps):
    """stress of the isotropic law for a 3x3 strain tensor"""
    lam, mu = lame(E, nu)
    return lam*np.trace(eps)*np.eye(3) + 2*mu*eps


def c3d(E, nu):
    """order xx yy zz yz xz xy, engineering shear"""
    idx = [(0, 0), (1, 1), (2, 2), (1, 2), (0, 2), (0, 1)]
    C = np.zeros((6, 6))
    for j, (a, b) in enumerate(idx):
        eps = np.zeros((3, 3))
        if a == b:
            eps[a, a] = 1
        else:
            eps[a, b] = eps[b, a] = 0.5
        sig = hooke(E, nu, eps)
        C[:, j] = [sig[p] for p in idx]
    return C


def cstress(E, nu):
    """plane stress: condensation of the 3D law"""
    return E/(1 - nu**2)*np.array([[1, nu, 0], [nu, 1, 0], [0, 0, (1 - nu)/2]])


def c4(E, nu):
    """order 11 22 12 33"""
    C = c3d(E, nu)
    k = [0, 1, 5, 2]
    return C[np.ix_(k, k)]


def bmat(dN, N=None, radius=None):
    """strain matrix from physical derivatives"""
    dim, n = dN.shape
    if dim == 2:
        B = np.zeros((3 if N is None else 4, 2*n))
        B[0, 0::2] = dN[0]
        B[1, 1::2] = dN[1]
        B[2, 0::2] = dN[1]
        B[2, 1::2] = dN[0]
        if N is not None:
            B[3, 0::2] = N/radius
        return B
    B = np.zeros((6, 3*n))
    for i in range(3):
        B[i, i::3] = dN[i]
    for row, (a, b) in zip((3, 4, 5), ((1, 2), (0, 2), (0, 1))):
        B[row, a::3] = dN[b]
        B[row, b::3] = dN[a]
    return B


def hmat(N, dim):
    H = np.zeros((dim, dim*len(N)))
    for i in range(dim):
        H[i, i::dim] = N
    return H


def geom(name, coord, pt):
    """N, physical derivatives, det"""
    N, dN = basis(name, pt)
    J = dN @ coord
    return N, np.linalg.solve(J, dN), np.linalg.det(J)


def element(name, coord, E, nu, rho=1.0, axi=False, pr=None):
    coord = np.asarray(coord, float)
    dim = ELEMS[name]["dim"]
    C = c4(E, nu) if axi else (cstress(E, nu) if dim == 2 else c3d(E, nu))
    pts, wts = pr if pr is not None else full_rule(name)
    n = dim*len(coord)
    K, M = np.zeros((n, n)), np.zeros((n, n))
    for p, w in zip(pts, wts):
        N, dNx, det = geom(name, coord, p)
        f = w*det
        if axi:
            rad = N @ coord[:, 0]
            B = bmat(dNx, N, rad)
            f *= 2*np.pi*rad
        else:
            B = bmat(dNx)
        H = hmat(N, dim)
        K += f*(B.T @ C @ B)
        M += rho*f*(H.T @ H)
    return K, M


def min_det(name, coord, n=6):
    """smallest determinant over a fine sample incl. boundary, and the mean"""
    e = ELEMS[name]
    g = np.linspace(-1, 1, n) if e["dom"] == "box" else np.linspace(0, 1, n)
    dets = []
    for p in itertools.product(g, repeat=e["dim"]):
        if e["dom"] == "tri" and sum(p) > 1 + 1e-9:
            continue
        dets.append(np.linalg.det(basis(name, p)[1] @ coord))
    return min(dets), float(np.mean(dets)), max(dets)


def measure(name, coord, axi=False):
    """area, volume or volume of revolution, by fine quadrature"""
    pts, wts = rule(name)
    tot = 0.0
    for p, w in zip(pts, wts):
        N, dN = basis(name, p)
        f = w*np.linalg.det(dN @ coord)
        if axi:
            f *= 2*np.pi*(N @ coord[:, 0])
        tot += f
    return tot


def rigid_modes(coord, axi=False):
    coord = np.asarray(coord, float)
    n, dim = coord.shape
    modes = []
    if axi:
        v = np.zeros((n, 2))
        v[:, 1] = 1
        return v.reshape(-1, 1)
    for d in range(dim):
        v = np.zeros((n, dim))
        v[:, d] = 1
        modes.append(v.ravel())
    c = coord - coord.mean(axis=0)
    L = np.abs(c).max() or 1.0
    for a, b in itertools.combinations(range(dim), 2):
        v = np.zeros((n, dim))
        v[:, a] = -c[:, b]/L
        v[:, b] = c[:, a]/L
        modes.append(v.ravel())
    return np.array(modes).T


# -- members ---------------------------------------------------------------
def bar(p, q, k):
    """spring/truss stiffness of axial constant k, from the elongation gradient"""
    t = (np.asarray(q, float) - np.asarray(p, float))
    t = t/np.hypot(*t)
    g = np.array([-t[0], -t[1], t[0], t[1]])
    return k*np.outer(g, g)


def bar_mass(p, q, rho_a):
    L = np.hypot(*(np.asarray(q, float) - np.asarray(p, float)))
    m = np.kron(np.array([[2, 1], [1, 2]]), np.eye(2))
    return rho_a*L/6*m


def _hermite(x, L):
    """cubic Hermite functions, and second derivatives, at x"""
    z = x/L
    h = np.array([1 - 3*z**2 + 2*z**3, L*(z - 2*z**2 + z**3),
                  3*z**2 - 2*z**3, L*(z**3 - z**2)])
    d2 = np.array([(-6 + 12*z)/L**2, (-4 + 6*z)/L, (6 - 12*z)/L**2, (6*z - 2)/L])
    return h, d2


def frame(p, q, EI, EA, rho_a):
    """Euler-Bernoulli member from its energies, global (ux, uy, theta) freedoms"""
    d = np.asarray(q, float) - np.asarray(p, float)
    L = np.hypot(*d)
    t = d/L
    nrm = np.array([-t[1], t[0]])
    K, M = np.zeros((6, 6)), np.zeros((6, 6))
    x, w = np.polynomial.legendre.leggauss(6)
    for xi, wi in zip(0.5*L*(x + 1), 0.5*L*w):
        h, d2 = _hermite(xi, L)
        # global vectors of transverse displacement, curvature, axial displacement
        v = np.concatenate([h[0]*nrm, [h[1]], h[2]*nrm, [h[3]]])
        c = np.concatenate([d2[0]*nrm, [d2[1]], d2[2]*nrm, [d2[3]]])
        u = np.concatenate([(1 - xi/L)*t, [0], (xi/L)*t, [0]])
        e = np.concatenate([-t/L, [0], t/L, [0]])
        K += wi*(EI*np.outer(c, c) + EA*np.outer(e, e))
        M += wi*rho_a*(np.outer(v, v) + (np.outer(u, u) if EA else 0))
    return K, M


# -- global model ----------------------------------------------------------
def scatter(ndofs, conn, ndpn, mats_k):
    K = np.zeros((ndofs, ndofs))
    for c, k in zip(conn, mats_k):
        d = (np.asarray(c)[:, None]*ndpn + np.arange(ndpn)).ravel()
        np.add.at(K, (d[:, None], d[None, :]), k)
    return K


def solve_free(K, f, free):
    """dense solution with the fixed freedoms at zero; returns u and cond"""
    u = np.zeros(len(f))
    if len(free) == 0:
        return u, 1.0
    Kf = K[np.ix_(free, free)]
    # symmetric scaling removes unit effects from the conditioning
    s = 1/np.sqrt(np.abs(np.diag(Kf)))
    Ks = Kf*s[:, None]*s[None, :]
    u[free] = s*np.linalg.solve(Ks, s*f[free])
    return u, np.linalg.cond(Ks)
